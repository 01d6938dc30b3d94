#!/bin/bash
# build.sh [PACKAGE...]: rebuild the simulator and everything of /repo it runs from /repo's
# working tree. Exit 0: built. 3: planus or the code it generates is broken (log printed).
# 2: anything else.
V=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
T=$V/target
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
log=$T/build.log
cli() { (cd /repo && CARGO_TARGET_DIR="$T/cli" cargo build --offline -p planus-cli --bin planus) >"$log" 2>&1; }
cd "$V/sim" || exit 2
case " $* " in
*" simrt "* | *" simtui "*)
    # the schemas of the simulator, and planus' code for them
    cli || { tail -40 "$log"; echo "cannot build planus-cli"; exit 2; }
    cargo build --offline -p simcore --bin simgen >"$log" 2>&1 || { tail -40 "$log"; exit 2; }
    "$T/debug/simgen" gen "$T/cli/debug/planus" >"$log" 2>&1
    r=$?
    if [ $r != 0 ]; then tail -40 "$log"; [ $r = 3 ] && { echo "planus refuses a valid schema"; exit 3; }; exit 2; fi
    ;;
esac
# planus without its sharing caches (and with its additional checks when reading), for C04
opts=
[ -n "$NOCACHE" ] && opts="--no-default-features --features strict --target-dir $T/nocache"
for p in "$@"; do
    if [ $p = simcli ]; then
        # the simulated operating system
        cc -O1 -fPIC -shared -fno-delete-null-pointer-checks -o "$T/simos.so.new" cli/shim.c -ldl >"$log" 2>&1 || { tail -40 "$log"; exit 2; }
        mv "$T/simos.so.new" "$T/simos.so"
    fi
    if ! cargo build --offline -p $p $opts >"$log" 2>&1; then
        grep -A12 '^error' "$log" | head -80
        # code written by planus that does not compile is not our mistake
        if grep -A3 '^error' "$log" | grep -qE -- '--> .*gen/[a-z]+/[a-z]+_v[0-9]+\.rs'; then
            echo "the code generated by planus does not compile"
            exit 3
        fi
        exit 2
    fi
done
exit 0
