#!/bin/bash
# check.sh PROP [quick|thorough]      run the check of one property against /repo's working tree
# check.sh replay PROP SEED TIER CASE re-run one case
# check.sh build                      build the harness (both builds)
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= TV_ROOT=$here
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL
failed() { grep -A12 "^error" "$here/$1.log" | head -60 >&2; echo "harness does not build" >&2; exit 2; }
build() {
    cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target" >"$here/target.log" 2>&1 || failed target
}
# the same program with AddressSanitizer (nightly)
build_asan() {
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address" cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" \
        --target x86_64-unknown-linux-gnu --target-dir "$here/asan-target" >"$here/asan-target.log" 2>&1 || failed asan-target
    export TV_NO_RLIMIT=1 TV_EXE=$here/asan-target/x86_64-unknown-linux-gnu/debug/tv
    export ASAN_OPTIONS=detect_leaks=0:halt_on_error=1:max_malloc_fill_size=1048576:max_free_fill_size=1048576:allocator_may_return_null=1:detect_stack_use_after_return=1
}
bin=$here/target/debug/tv
prop=$1; [ "$1" = replay ] && prop=$2
case "$prop" in
    build) (build_asan) & build; wait $!; exit ;;
    C19) build_asan & (exit 0); build; wait $! || exit 2; build_asan ;;
    *) build ;;
esac
case "$1" in
    replay) shift; exec "${TV_EXE:-$bin}" replay "$@" ;;
    *) [ -n "$2" ] && export VERIF_TIER=$2; exec "$bin" check "$1" ;;
esac
