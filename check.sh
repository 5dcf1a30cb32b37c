#!/bin/bash
# check.sh ID quick|thorough   builds from /repo's current tree and runs one check
# check.sh build               builds only
# check.sh replay FILE         runs a replay file
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$V/sim/target"
export RUSTC_WRAPPER="$V/sim/wrap.sh"
mkdir -p "$V/evidence" "$V/replays" "$V/sim/target"
log="$V/sim/target/build.log"
case "$1" in
replay) id="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)"
  case "$2" in *C03-bindings.log) id=C03 ;; esac ;;
*) id="$1" ;;
esac
case "$id" in
C12 | C13 | C14 | C15) bin=ccsim ;;
*) bin=rtsim ;;
esac
build() { (cd "$V/sim" && cargo build --offline -p "$1") >"$log" 2>&1; }
if [ "$1" = build ]; then
  build rtsim && { [ ! -d "$V/sim/ccsim" ] || build ccsim; } || { tail -40 "$log"; exit 2; }
  exit 0
fi
if ! build $bin; then
  if [ "$id" = C03 ] && "$V/tools/bindings_broken.sh" "$log"; then
    mkdir -p "$V/replays"
    cp "$log" "$V/replays/C03-bindings.log"
    "$V/tools/evidence_build_failed.sh" C03 "$2"
    grep -E '^error' -A4 "$log" | head -40
    echo "the bindings generated for the schema corpus do not compile (or the schema compiler refuses the corpus)"
    echo "VIOLATION property=C03 replay=$V/replays/C03-bindings.log"
    exit 1
  fi
  tail -60 "$log"
  echo "cannot build the simulation"
  exit 2
fi
if [ "$1" = replay ]; then
  case "$2" in *C03-bindings.log) echo "the bindings compile"; exit 0 ;; esac
  exec "$CARGO_TARGET_DIR/debug/$bin" replay "$2"
fi
exec "$CARGO_TARGET_DIR/debug/$bin" check "$1" "${2:-quick}"
