#!/bin/bash
# usage: check.sh build | check.sh <property>     (VERIF_SEED, VERIF_TIER honoured)
# Builds the simulator (and the real CLI binary) from /repo's current working tree and
# runs one property's simulation. Exit 0 held, 1 violation, 2 could not decide.
set -u
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.90.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
unset CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG
V=$PWD
T=$V/target
mkdir -p "$T" "$V/out"
# judge content, not timestamps: another tree than last time is rebuilt from scratch
sum() { find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum; }
build_sim() {
  now=$(sum)
  if [ "$now" != "$(cat "$T/tree.sum" 2>/dev/null)" ]; then
    rm -f "$T/tree.sum"
    rm -rf "$T"/debug/.fingerprint/asciidork-* "$T"/debug/.fingerprint/simdork-*
  fi
  cargo build --offline --manifest-path "$V/sim/Cargo.toml" --target-dir "$T" 2>&1 || exit 2
  echo "$now" >"$T/tree.sum"
}
# the CLI as shipped (its own workspace, lock file and features), and the seam it runs on
build_cli() {
  now=$(sum)
  if [ "$now" != "$(cat "$T/cli.sum" 2>/dev/null)" ]; then
    rm -f "$T/cli.sum"
    rm -rf "$T"/cli/debug/.fingerprint/asciidork*
  fi
  CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --manifest-path /repo/Cargo.toml -p asciidork-cli --target-dir "$T/cli" 2>&1 || exit 2
  if [ ! -f "$T/shim.so" ] || [ "$V/shim/shim.c" -nt "$T/shim.so" ]; then
    gcc -O1 -Wall -fno-delete-null-pointer-checks -Wno-nonnull-compare -shared -fPIC -o "$T/shim.so.tmp" "$V/shim/shim.c" -ldl 2>&1 && mv "$T/shim.so.tmp" "$T/shim.so" || exit 2
  fi
  echo "$now" >"$T/cli.sum"
}
build() {
  (
    flock 9
    build_sim || exit 2
    # only some checks run the command line tool
    case "${1:-}" in build | C* | S02 | S03) build_cli || exit 2 ;; esac
  ) 9>"$T/build.lock"
}
log=$V/out/build.$$.log
if ! build "${1:-}" >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "check.sh: build failed" >&2
  exit 2
fi
rm -f "$log"
[ "${1:-}" = build ] && exit 0
SIM_TARGET=$T exec "$T/debug/simdork" run "$1"
