#!/bin/bash
# rustc wrapper: instruments the crates under test (edges as step counter and preemption points)
rustc="$1"; shift
for a in "$@"; do [ "$prev" = "--crate-name" ] && cn="$a"; prev="$a"; done
case "$cn" in
zserio | zserio_rs_build | simschema) exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
