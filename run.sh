#!/bin/bash
# run.sh PROPERTY quick|thorough : decide one property on /repo's current tree.
# run.sh build                   : build the engine.
# run.sh replay FILE             : replay counterexamples on the real code.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME=${HOME:-/root}
build() {
  ( cd engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build -o "$VERIF_DIR/bin/engine" . )
}
mkdir -p bin evidence
if [ "$1" = build ]; then build; exit $?; fi
if ! build; then [ -x bin/engine ] || { echo "# engine does not build"; exit 2; }; fi
if [ "$1" = replay ]; then exec bin/engine replay "$2"; fi
tier="${2:-${VERIF_TIER:-quick}}"
timeout -k 5 860 bin/engine check "$1" "$tier"
rc=$?
case $rc in
0|1) exit $rc ;;
2) exit 2 ;;
esac
# The engine itself was ended (memory, time): nothing was decided, and the
# evidence says so.
python3 - "$1" "$tier" "$rc" <<'PY'
import json, os, sys
id, tier, rc = sys.argv[1], sys.argv[2], int(sys.argv[3])
f = f"evidence/{id}.json"
json.dump({"property": id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
  "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["the engine was ended before a verdict"],
    "exhaustive": False, "explanation": f"inconclusive: the engine ended with status {rc}; nothing was decided on this run"},
  "wall_s": 0, "violations": 0}, open(f, "w"), indent=1)
PY
echo "# inconclusive: engine ended with status $rc"
exit 0
