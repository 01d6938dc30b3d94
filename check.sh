#!/bin/bash
# check.sh ID: decide property ID on /repo's working tree.
# Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
id=$1
T=$V/target
build() {
    bash "$V/build.sh" "$@"
    local r=$?
    [ $r = 0 ] && return
    if [ $r = 3 ] && { [ "$id" = C01 ] || [ "$id" = C09 ]; }; then
        # planus refuses, or writes code that does not compile for, a schema of the simulator:
        # nothing with that schema can make the round trip
        mkdir -p "$V/replays" "$V/evidence"
        f=$V/replays/$id-codegen.json
        printf '{"property": "%s", "violation": {"sig": "codegen", "text": "the schemas in sim/gen (written from sim/core/src/gen.rs) cannot be compiled"}, "how": "bash %s/build.sh %s"}\n' "$id" "$V" "$*" >"$f"
        printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "exploration", "wall_s": 0, "violations": 1, "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "compilation of the schemas of the simulator", "samples": ["sim/gen"]}}\n' "$id" "$VERIF_TIER" "$VERIF_SEED" >"$V/evidence/$id.json"
        echo "VIOLATION property=$id replay=$f"
        exit 1
    fi
    echo "no answer: the build failed"
    exit 2
}
case $id in
C01 | C02 | C03 | C05 | C06 | C07 | C09)
    build simrt
    "$T/debug/rt" $id check
    ;;
C04)
    # once with planus' sharing caches compiled out, and once with them
    NOCACHE=1 build simrt
    "$T/nocache/debug/rt" C04 check || exit $?
    cp "$V/evidence/C04.json" "$T/C04-nocache.json"
    build simrt
    "$T/debug/rt" C04 check || exit $?
    python3 - "$V/evidence/C04.json" "$T/C04-nocache.json" <<'P'
import json, sys
a, b = (json.load(open(f)) for f in sys.argv[1:])
a["coverage"]["with_caches_compiled_out"] = b["coverage"]
a["wall_s"] += b["wall_s"]
json.dump(a, open(sys.argv[1], "w"), indent=1)
P
    ;;
C08)
    build simcur
    # first: sizes that do not add up must not compile
    "$T/debug/cur" C08 refused "$T/refused" || exit $?
    "$T/debug/cur" C08 check
    ;;
C13 | C14)
    build simtui
    "$T/debug/tui" $id check
    ;;
C10 | C11 | C12 | C15 | C16)
    build simcli
    "$T/debug/cli" $id check
    ;;
*)
    echo "unknown property $id"
    exit 2
    ;;
esac
