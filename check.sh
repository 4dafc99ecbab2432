#!/bin/sh
# check.sh setup | PROP | replay FILE | selftest | case PROP N
# Builds the simulator together with /repo's current working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$here/sim/wrap.sh" SIM_ROOT="$here"
export CARGO_TARGET_DIR="$here/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cd "$here/sim" || exit 2
log=$(mktemp) || exit 2
if ! cargo build --offline --release --quiet >"$log" 2>&1; then
  grep -A12 "^error" "$log" | head -80 >&2; rm -f "$log"
  echo "check error: the simulator does not build with this tree" >&2
  exit 2
fi
rm -f "$log"
bin="$here/sim/target/release/checker"
case "$1" in
  setup) exit 0 ;;
  replay|case|selftest|hashes) exec "$bin" "$@" ;;
  *) exec "$bin" run "$1" ;;
esac
