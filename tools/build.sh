#!/bin/bash
# Build the explorer against the working tree of /repo. Everything goes to /verif/target.
set -e
cd "$(dirname "$0")/.."
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
mkdir -p target
# Do not rely on modification times to notice a change in /repo.
now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/source 2>/dev/null)" != "$now" ]; then
    (cd harness && cargo clean --offline --release -p postscript >/dev/null 2>&1) || true
    echo "$now" > target/source
fi
(
    flock 9
    cd harness
    cargo build --offline --release --locked >../target/build.log 2>&1
) 9>target/lock || { cat target/build.log >&2; exit 2; }
