#!/bin/bash
# check.sh ID              decide property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)
# check.sh --replay ID N   re-run case N of property ID
# check.sh --build         build only
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.96-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET 2>/dev/null
: "${VERIF_TIER:=quick}" "${VERIF_SEED:=1}"
export VERIF_TIER VERIF_SEED
T="$PWD/target"
mkdir -p "$T"
# Cargo judges freshness by time stamps; judge it by content, whatever made the files.
fresh() {
  local now
  now=$(cd /repo && find Cargo.toml Cargo.lock src -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$now" != "$(cat "$T/source.sum" 2>/dev/null)" ]; then
    cargo clean --quiet --offline --manifest-path harness/Cargo.toml --target-dir "$T" -p rekordcrate 2>/dev/null
    ( cd /repo && cargo clean --quiet --offline --target-dir "$T/cli" -p rekordcrate ) 2>/dev/null
    echo "$now" >"$T/source.sum"
  fi
}
build() {
  cargo build --quiet --offline --manifest-path harness/Cargo.toml --target-dir "$T" >"$T/build.log" 2>&1 ||
    { cat "$T/build.log" >&2; echo "build of the monitors against /repo failed" >&2; exit 2; }
}
build_cli() {
  ( cd /repo && cargo build --quiet --locked --bin rekordcrate --target-dir "$T/cli" ) >"$T/build-cli.log" 2>&1 ||
    { cat "$T/build-cli.log" >&2; echo "build of the rekordcrate binary failed" >&2; exit 2; }
}
needs_cli() { case "$1" in C13|C14|C15|C20|C23) return 0;; *) return 1;; esac; }
fresh
case "${1:-}" in
  --build) build; build_cli; exit 0;;
  --hb) build; exit 0;;
  --replay) build; needs_cli "$2" && build_cli; exec "$T/debug/mon" replay "$2" "$3";;
  C[0-9][0-9]) build; needs_cli "$1" && build_cli; exec "$T/debug/mon" run "$1";;
  *) echo "usage: $0 ID | --replay ID CASE | --build" >&2; exit 2;;
esac
