#!/bin/bash
# Builds the checks against /repo's working tree and runs one of them.
#   run.sh <PROPERTY> quick|thorough      run.sh build      run.sh replay <PROPERTY> <FILE>
set -u
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export RUST_BACKTRACE=0
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/.build"
build() {
  # cargo only compares modification times: make it look at the sources of trane again.
  rm -rf "$here"/.build/debug/.fingerprint/trane-[0-9a-f]*
  local log="$here/.build/build.log"
  mkdir -p "$here/.build"
  if ! (cd "$here/harness" && cargo build --offline --locked -q) >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "BUILD-FAILED" >&2
    exit 2
  fi
}
build
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$here/.build/debug/trane-pbt" replay "$2" "$3" ;;
  *) exec "$here/.build/debug/trane-pbt" run "$1" "${2:-quick}" ;;
esac
