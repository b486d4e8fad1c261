#!/bin/bash
# build.sh plain|asan|sem : lay the view of /repo out and build the harness against it.
. "$(dirname "$0")/env.sh"
mkdir -p "$WORK"
python3 "$VERIF/tools/layout.py" "$REPO" "$WORK/scope" || exit 2
LOG="$WORK/build-$1.log"
cd "$VERIF/harness" || exit 2
if [ "$1" = sem ]; then
    # the whole library with its grammar, the latter compiled by tools/peg.py (C24)
    python3 "$VERIF/tools/layout.py" "$REPO" "$WORK/full" full "$VERIF/sem/peginator" >"$LOG" 2>&1 || { cat "$LOG" >&2; exit 2; }
    cd "$VERIF/sem" || exit 2
fi
build() {
    case "$1" in
    sem) [ -z "$2" ] && cargo build --offline --locked --target-dir "$WORK/target-sem" >"$LOG" 2>&1 ;;
    plain) cargo build --offline --locked $2 --target-dir "$WORK/target" >"$LOG" 2>&1 ;;
    asan) RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes --cfg verif_asan" \
        cargo build --offline --locked $2 --target x86_64-unknown-linux-gnu --target-dir "$WORK/target-asan" >"$LOG" 2>&1 ;;
    *) false ;;
    esac
}
# without the editor module when that one does not compile on its own: then only C20 has no answer
if ! build "$1" "--features editor" && ! build "$1"; then
    echo "BUILD FAILED ($1), see $LOG" >&2
    grep -A12 '^error' "$LOG" | head -60 >&2
    exit 2
fi
