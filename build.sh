#!/bin/bash
# build.sh BIN...: builds the explorer against /repo's working tree, offline.
# Does not trust file times: when the contents of /repo differ from those of the last build,
# the library is compiled again.
cd "$(dirname "$0")" || exit 2
V=$PWD
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.88.0} CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$V/.build
mkdir -p "$V/.build" || exit 2
SUM=$( (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
STAMP=$V/.build/repo.sum
if [ -e "$STAMP" ] && [ "$(cat "$STAMP")" != "$SUM" ]; then
    (cd mc && cargo clean --offline -p dinero-rs) >/dev/null 2>&1
    rm -f "$STAMP"
fi
BINS=()
for b in "$@"; do BINS+=(--bin "$b"); done
(cd mc && cargo build --offline "${BINS[@]}") || exit 2
echo "$SUM" >"$STAMP"
