#!/bin/bash
# evidence_build_failed.sh ID TIER: evidence of a run that ended with bindings that do not compile
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/evidence"
cat > "$V/evidence/$1.json" <<J
{"property": "$1", "tier": "${2:-quick}", "seed": ${VERIF_SEED:-1}, "level": "exploration",
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the corpus of schemas was compiled and its bindings were built", "samples": ["the bindings generated for the corpus do not compile"]},
 "assumptions": [], "wall_s": 1, "violations": 1}
J
