#!/bin/bash
# check.sh <property id> [extra harness args]: rebuilds the monitor harness against /repo's working
# tree and runs it. Exit 0: held; 1: VIOLATION line printed; 2: no answer (build or harness error).
ID="$1"; shift
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
. "$VERIF/tools/env.sh"
if [ "$ID" = C23 ]; then
    bash "$VERIF/tools/build.sh" asan || exit 2
    export ASAN_OPTIONS=detect_leaks=0:exitcode=66:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1
    HARNESS="$WORK/target-asan/x86_64-unknown-linux-gnu/debug/harness"
elif [ "$ID" = C24 ]; then
    bash "$VERIF/tools/build.sh" sem || exit 2
    HARNESS="$WORK/target-sem/debug/harness"
else
    bash "$VERIF/tools/build.sh" plain || exit 2
    HARNESS="$WORK/target/debug/harness"
fi
mkdir -p "$VERIF/replays"
LOG="$VERIF/replays/$ID.log"
"$HARNESS" "$ID" "$@" 2> >(tail -c 200000 | tee "$LOG" >&2)
RC=$?
case $RC in
132 | 134 | 135 | 136 | 139)
    # the code under test took the whole process down (stack exhausted, abort, bad memory access)
    wait
    {
        echo "property $ID key crash"
        echo "replay: VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} ./check.sh $ID $*"
        echo "the process under the monitor died of signal $((RC - 128))"
        tail -n 20 "$LOG"
    } >"$VERIF/replays/$ID.txt"
    echo "VIOLATION property=$ID replay=$VERIF/replays/$ID.txt"
    exit 1
    ;;
esac
exit $RC
