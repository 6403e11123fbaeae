#!/bin/bash
# run.sh ID quick|thorough : rebuild the harness against /repo's working tree and run one check
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-quick}"
export CARGO_NET_OFFLINE=true VERIF_DIR="$here"
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
mkdir -p "$here/evidence" "$here/target"
# cargo decides by time stamps; decide by content instead
stamp="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
. "$here/build.sh"
if ! build_release >"$here/evidence/build-$id.log" 2>&1; then
  tail -40 "$here/evidence/build-$id.log" >&2
  echo "build failed" >&2
  exit 2
fi
if [ "$id" = C01 ]; then
  build_checked >"$here/evidence/build-$id-checked.log" 2>&1 &
  p=$!
  build_asan >"$here/evidence/build-$id-asan.log" 2>&1 || echo "no address sanitizer build" >&2
  wait $p || echo "no checked build" >&2
fi
exec "$here/target/release/mc" "$id" "$tier"
