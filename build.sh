# sourced by run.sh and setup.sh; needs $here and $stamp
refresh() { # refresh DIR : forget what was built from another tree
  mkdir -p "$1"
  if [ "$(cat "$1/stamp" 2>/dev/null)" != "$stamp" ]; then
    find "$1" -type d -path '*/.fingerprint/zune-jpeg*' -prune -exec rm -rf {} +
  fi
}
build_release() {
  refresh "$here/target/release" &&
  (cd "$here/mc" && CARGO_TARGET_DIR="$here/target" cargo build --release --offline) &&
  echo "$stamp" >"$here/target/release/stamp"
}
build_checked() {
  refresh "$here/target/v-checked"
  (cd "$here/mc" && CARGO_TARGET_DIR="$here/target/v-checked" cargo build --profile checked --offline) &&
  echo "$stamp" >"$here/target/v-checked/stamp" && return 0
  rm -f "$here/target/v-checked/checked/mc"; return 1
}
build_asan() {
  refresh "$here/target/v-asan"
  (cd "$here/mc" && RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" CARGO_TARGET_DIR="$here/target/v-asan" \
    cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu) &&
  echo "$stamp" >"$here/target/v-asan/stamp" && return 0
  rm -f "$here/target/v-asan/x86_64-unknown-linux-gnu/release/mc"; return 1
}
