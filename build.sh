#!/bin/sh
# Builds the explorer against /repo's working tree. A stamp over the sources decides whether the
# crate has to be compiled again: time stamps alone may lie in copied trees.
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness"
export CARGO_TARGET_DIR="$here/harness/target" CARGO_NET_OFFLINE=true
mkdir -p target
exec 9>target/.lock
flock 9
stamp=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.stamp 2>/dev/null)" != "$stamp" ]; then
    rm -f target/.stamp
    rm -rf "$here"/harness/target/release/.fingerprint/mqttbytes-* "$here"/harness/target/release/.fingerprint/mc-*
fi
cargo build --release --offline -q 2>target/build.log || { cat target/build.log >&2; exit 2; }
echo "$stamp" >target/.stamp
