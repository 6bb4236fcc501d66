#!/bin/bash
# Build the harness against /repo's working tree and run one property.
#   run.sh <property> [--tier quick|thorough] [--seed N] [--cases N]
#   run.sh build            build everything the checks use
#   run.sh replay FILE
cd "$(dirname "$0")" || exit 2
export DPVERIF_ROOT="$PWD" DPVERIF_REPO="${DPVERIF_REPO:-/repo}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${DPVERIF_TARGET:-$PWD/target}"
export DPVERIF_GEN_TARGET="$CARGO_TARGET_DIR/gen"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" evidence out .work || exit 2

# a changed tree is rebuilt even when its files are older than the build (cargo goes by time)
fresh() {
    local h old
    h=$(cd "$DPVERIF_REPO" && { find src Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; } | sha256sum)
    old=$(cat "$CARGO_TARGET_DIR/tree" 2>/dev/null)
    if [ "$h" != "$old" ]; then
        rm -rf "$CARGO_TARGET_DIR"/*/.fingerprint/dynparser-* "$CARGO_TARGET_DIR"/gen/*/.fingerprint/dynparser-*
        echo "$h" >"$CARGO_TARGET_DIR/tree"
    fi
}
build() { # profile
    (cd harness && RUSTFLAGS="--cfg dynparser_verif -Awarnings" cargo build --offline --quiet --profile "$1" --bin dpverif) && return
    # should only the hook not build against this tree: the checks do without (C13 looks from outside)
    echo "harness: building without the hook" >&2
    (cd harness && RUSTFLAGS="-Awarnings" cargo build --offline --quiet --profile "$1" --bin dpverif) || {
        echo "harness: the build failed" >&2
        exit 2
    }
}
locked() {
    exec 9>"$CARGO_TARGET_DIR/lock"
    flock 9
    fresh
    "$@"
    exec 9>&-
}
profile() { case "$1" in C22) echo plain ;; *) echo release ;; esac; }

case "$1" in
build)
    locked build release
    locked build plain
    "$CARGO_TARGET_DIR/release/dpverif" warm || exit 2
    ;;
replay)
    id=$(sed -n 's/^property //p' "$2" | head -1)
    p=$(profile "$id")
    locked build "$p"
    exec "$CARGO_TARGET_DIR/$p/dpverif" replay "$2"
    ;;
*)
    p=$(profile "$1")
    locked build "$p"
    exec "$CARGO_TARGET_DIR/$p/dpverif" "$@"
    ;;
esac
