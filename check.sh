#!/bin/bash
# check.sh build | check.sh ID | check.sh replay FILE
# Builds the simulator against /repo's working tree and runs one property's check.
cd "$(dirname "$0")" || exit 2
here=$PWD
export CARGO_TARGET_DIR=$here/sim/target CARGO_NET_OFFLINE=true SIM_DIR=$here
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays" || exit 2

build() (
    flock 9
    # Decide by content, not by time stamps, whether the crates under test changed.
    sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    stamp=$CARGO_TARGET_DIR/repo.sum
    cd "$here/sim" || exit 2
    if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
        rm -f "$stamp"
        cargo clean --release --offline -p llvm-bitcursor -p llvm-bitstream -p llvm-mapper -p llvm-support >/dev/null 2>&1
    fi
    log=$CARGO_TARGET_DIR/build.log
    if ! cargo build --release --offline --locked >"$log" 2>&1; then
        # /repo's own manifests may have changed.
        if ! cargo build --release --offline >"$log" 2>&1; then
            tail -40 "$log" >&2
            exit 2
        fi
        git -C "$here" checkout -q -- sim/Cargo.lock 2>/dev/null
    fi
    echo "$sum" >"$stamp"
) 9>"$CARGO_TARGET_DIR/build.lock"

build || { echo "build failed" >&2; exit 2; }
case "$1" in
build) ;;
replay) exec sim/target/release/sim replay "$2" ;;
*) exec sim/target/release/sim check "$1" ;;
esac
