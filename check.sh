#!/bin/bash
# check.sh <property> <quick|thorough>   decide one property against /repo's working tree
# check.sh replay <file>                 run the case of a replay file again
# exit: 0 held, 1 violation, 3 no verdict (build failure or trouble of the machinery)
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$V"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUST_BACKTRACE RUST_LIB_BACKTRACE CARGO_TARGET_DIR
T="$V/target"
HOST=x86_64-unknown-linux-gnu
mkdir -p "$V/evidence" "$T"

build() { # build <target dir> <cargo args...>
    local dir=$1 log
    shift
    log="$T/build.$$.$(basename "$dir").log"
    if ! CARGO_TARGET_DIR="$dir" timeout 800 cargo "$@" >"$log" 2>&1; then
        echo "inconclusive: the build failed: cargo $*" >&2
        tail -40 "$log" >&2
        exit 3
    fi
    rm -f "$log"
}
plain() { build "$T" build --offline --bin vh; }
# the library, the standard library's callers and the harness under a sanitizer
asan() { RUSTFLAGS=-Zsanitizer=address build "$T/asan" +nightly build --offline --no-default-features --bin vh --target $HOST; }
msan() { RUSTFLAGS=-Zsanitizer=memory build "$T/msan" +nightly build --offline -Zbuild-std --no-default-features --features msan --bin vh --target $HOST; }
tsan() { RUSTFLAGS=-Zsanitizer=thread build "$T/tsan" +nightly build --offline -Zbuild-std --no-default-features --features tsan --bin vh --target $HOST; }
# the backtrace feature needs nightly
feature() { build "$T/feature" +nightly build --offline --no-default-features --features backtrace --bin vh; }
nofeature() { build "$T/nofeature" +nightly build --offline --no-default-features --bin vh; }
miri() {
    cat >"$T/miri.sh" <<EOF
cd "$V/harness" && exec env CARGO_TARGET_DIR="$T/miri" MIRIFLAGS="-Zmiri-disable-isolation" \\
    cargo +nightly miri run -q --offline --bin vh --no-default-features -- "\$@"
EOF
    # builds everything; an empty list interprets nothing
    : >"$T/empty"
    if ! timeout 800 bash "$T/miri.sh" interpret "$T/empty" >"$T/build.miri.log" 2>&1; then
        echo "inconclusive: Miri does not run" >&2
        tail -40 "$T/build.miri.log" >&2
        exit 3
    fi
}
all() { # all <build>...: several builds at once
    local pids=() p
    for p in "$@"; do
        $p &
        pids+=($!)
    done
    for p in "${pids[@]}"; do
        wait "$p" || exit 3
    done
}

cd "$V/harness" || exit 3
cmd=${1:-}
id=$cmd
tier=${2:-quick}
args=(check "$cmd" "$tier")
if [ "$cmd" = replay ]; then
    id=$(sed -n 's/^property=//p' "$2" | head -1)
    tier=$(sed -n 's/^tier=//p' "$2" | head -1)
    args=(replay "$2")
fi
VH="$T/debug/vh"
case "$id" in
setup)
    plain
    exit 0
    ;;
C01)
    # the least optimised frames of the library
    build "$T" build --offline --profile strict --bin vh
    VH="$T/strict/vh"
    ;;
C04)
    export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 MSAN_OPTIONS=allocator_may_return_null=1
    export VH_MIRI="$T/miri.sh" VH_STACK=67108864
    if [ "$tier" = thorough ]; then
        all plain asan msan miri
        export VH_WORKERS="$T/asan/$HOST/debug/vh:$T/msan/$HOST/debug/vh"
    else
        all plain asan miri
        export VH_WORKERS="$T/asan/$HOST/debug/vh"
    fi
    [ "$cmd" = replay ] && VH=${VH_WORKERS%%:*}
    ;;
C05)
    # every other worker runs under the race detector
    all plain tsan
    export TSAN_OPTIONS=halt_on_error=1:exitcode=66
    export VH_WORKERS="$T/debug/vh:$T/tsan/$HOST/debug/vh"
    ;;
C31)
    # both by one compiler: what Debug escapes differs between versions
    all nofeature feature
    export VH_BACKTRACE="$T/feature/debug/vh"
    VH="$T/nofeature/debug/vh"
    ;;
C30)
    build "$T" build --offline --bins
    ;;
*)
    plain
    ;;
esac
exec "$VH" "${args[@]}"
