#!/bin/bash
# bindings_broken.sh LOG: true if the build failed because of what the schema compiler under test
# made of the corpus (and not because of the simulation or the runtime crate)
log="$1"
if grep -q 'failed to run custom build command for `simschema' "$log" && grep -q 'SCHEMA-COMPILER-FAILED' "$log"; then exit 0; fi
grep -qE '^ *--> (simschema/)?src/bindings/' "$log" || exit 1
# errors elsewhere in our own code or in the repository: not the bindings
if grep -A6 -E '^error(\[E[0-9]+\])?:' "$log" | grep -qE '^ *--> .*(src/glue\.rs|crates/zserio)'; then exit 1; fi
exit 0
