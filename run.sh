#!/bin/bash
# run.sh <ID> [quick|thorough]      run a property's check
# run.sh <ID> --replay <file>       run one recorded input
# Builds the harness (and the library from /repo's working tree) in both
# flavours first. VERIF_SEED and VERIF_TIER are honoured.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
root=$PWD
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
log=$(mktemp)
trap 'rm -f "$log"' EXIT
# build_one <dir> <target> <log> <cargo args...>
build_one() {
    local dir=$1 target=$2 out=$3
    shift 3
    (cd "$dir" && cargo build --offline "$@" --target-dir "$target" >"$out" 2>&1)
}
# build_all <suffix>: both flavours (and the tool where needed)
build_all() {
    build_one harness target/checked$1 "$log.c" --profile release & local c=$!
    build_one harness target/plain$1 "$log.p" --profile plain & local p=$!
    local t=
    if [ "$id" = build ] || [ "$id" = C18 ]; then
        build_one toolbuild ../harness/target/tool "$log.t" & t=$!
    fi
    local ok=0
    wait $c || ok=1
    wait $p || ok=1
    [ -n "$t" ] && { wait $t || ok=1; }
    return $ok
}
sfx=
if ! build_all ""; then
    # The re-exports under the hook may be what does not build: do without.
    cp "$log.c" "$log.c0"
    sfx=-nohook
    if ! RUSTFLAGS="--cfg rv_nohook" build_all -nohook; then
        for f in "$log.t" "$log.c0" "$log.c" "$log.p"; do [ -f "$f" ] && tail -n 30 "$f" >&2; done
        rm -f "$log".*
        exit 2
    fi
    echo "note: built without the verification hook" >&2
fi
rm -f "$log".*
[ "$id" = build ] && exit 0
plain=$root/harness/target/plain$sfx/plain/check
checked=$root/harness/target/checked$sfx/release/check
export RV_TOOL=$root/harness/target/tool/debug/regalloc2-tool
export RV_PLAIN=$plain RV_CHECKED=$checked
if [ "$tier" = --replay ]; then
    if grep -q '"flavor": *"checked"' "$3"; then exe=$checked; else exe=$plain; fi
    "$exe" one "$id" "$3"
    rc=$?
    if [ $rc = 3 ]; then echo "VIOLATION property=$id replay=$3"; exit 1; fi
    exit $rc
fi
rm -f "$log"
exec "$plain" parent "$id" "$tier" "$seed" "$root" "$plain" "$checked"
