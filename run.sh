#!/bin/bash
# run.sh ID            run the check of property ID (tier from VERIF_TIER, seed from VERIF_SEED)
# run.sh replay FILE   re-run one saved failing case
# run.sh build         build everything (setup)
# Exit: 0 held, 1 violation (with a VIOLATION line), anything else: the check could not run.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ "$1" = replay ] && set -- replay "$(realpath "$2")"
export VERIF_ROOT="$V"
. "$V/env.sh"
cd "$V/harness" || exit 2
# checks whose subject is the code as a release user runs it (no debug assertions)
nodbg=" z02 z03 z04 z05 l02 "
# checks that need the hooks of /repo (crate-private parts); everything else is built without them
hooked=" t02 k02 "
hooks_on() {
    export RUSTFLAGS="$RUSTFLAGS --cfg vp_hooks" CARGO_TARGET_DIR="$VERIF_ROOT/target/hooked"
}
if [ "$1" = build ]; then
    bins=()
    for f in src/bin/*.rs; do
        b=$(basename "$f" .rs)
        case "$nodbg$hooked" in *" $b "*) ;; *) bins+=(--bin "$b") ;; esac
    done
    cargo build --offline "${bins[@]}" || exit 2
    bins=()
    for b in $nodbg; do [ -f "src/bin/$b.rs" ] && bins+=(--bin "$b"); done
    if [ ${#bins[@]} -gt 0 ]; then cargo build --offline --profile nodbg "${bins[@]}" || exit 2; fi
    bins=()
    for b in $hooked; do [ -f "src/bin/$b.rs" ] && bins+=(--bin "$b"); done
    if [ ${#bins[@]} -gt 0 ]; then (hooks_on; cargo build --offline "${bins[@]}") || exit 2; fi
    exit 0
fi
if [ "$1" = replay ]; then
    file="$2"
    abort=$(grep -c '"abort"' "$file")
    id=$(sed -n 's/^ *"property": "\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
    set -- "$id"
    # a replay of an abort is the whole run
    if [ "$abort" = 0 ]; then args=(replay "$(realpath "$file")"); else args=(); fi
else
    args=()
fi
[ -n "$2" ] && export VERIF_TIER="$2"
bin=$(echo "$1" | tr A-Z a-z)
case "$hooked" in *" $bin "*) hooks_on ;; esac
case "$nodbg" in
    *" $bin "*) prof=(--profile nodbg); dir=nodbg ;;
    *) prof=(); dir=debug ;;
esac
out=$(cargo build --offline --bin "$bin" "${prof[@]}" 2>&1) || { echo "$out" | tail -40; echo "build of the check failed"; exit 2; }
limit=840
[ "$VERIF_TIER" = thorough ] && limit=36000
(ulimit -v 25165824; exec timeout -k 10 "$limit" "$CARGO_TARGET_DIR/$dir/$bin" "${args[@]}")
rc=$?
# The code under test aborted (stack exhausted, memory without bound) or accessed memory it may not.
if [ $rc = 134 ] || [ $rc = 139 ]; then
    mkdir -p "$V/replays"
    f="$V/replays/$1-abort.json"
    printf '{\n "property": "%s",\n "law": "",\n "abort": %s\n}\n' "$1" "$rc" > "$f"
    echo "VIOLATION property=$1 replay=$f"
    exit 1
fi
[ $rc -gt 1 ] && echo "check ended abnormally (rc $rc)"
exit $rc
