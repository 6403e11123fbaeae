#!/bin/bash
# build the harness once (checks rebuild incrementally from /repo's working tree)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
mkdir -p "$here/evidence" "$here/target"
stamp="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
. "$here/build.sh"
build_release || exit 1
build_checked
build_asan
exit 0
