#!/bin/bash
# check.sh build                    build the harness against /repo's working tree
# check.sh <property> quick|thorough
# check.sh replay <property> <file>
#
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: no answer.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=/repo
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=$here/harness/target CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
PATH=$PATH:/root/.cargo/bin

build() {
    mkdir -p "$CARGO_TARGET_DIR" || return 2
    exec 9> "$CARGO_TARGET_DIR/.vcheck-lock" && flock 9 || return 2
    local sum stamp=$CARGO_TARGET_DIR/.vcheck-stamp
    # cargo goes by times, this by content
    sum=$(cd "$repo" && find crates Cargo.toml -type d -name target -prune -o -type f -print0 | sort -z |
        xargs -0 sha256sum | sha256sum) || return 2
    if [ "$(cat "$stamp" 2> /dev/null)" != "$sum" ]; then
        rm -f "$stamp"
        (cd "$here/harness" && cargo clean --offline --quiet -p openid4vci) 2> /dev/null
    fi
    local log=$CARGO_TARGET_DIR/.vcheck-build.log
    if ! (cd "$here/harness" && cargo build --offline --locked --quiet --bin vcheck-props) > "$log" 2>&1; then
        cat "$log"
        echo "ERROR the harness does not build"
        return 2
    fi
    echo "$sum" > "$stamp"
    exec 9>&-
}

build || exit 2
bin=$CARGO_TARGET_DIR/debug/vcheck-props
case ${1:-} in
build) exit 0 ;;
*) VERIF_DIR=$here exec "$bin" "$@" ;;
esac
