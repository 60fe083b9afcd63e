#!/bin/bash
# usage: run.sh <property> [options of the check binary]
# Builds the check against /repo's working tree (with the cfg(spaceman_sim)
# hook on) and runs it. See DESIGN.md.
set -u
cd "$(dirname "$0")" || exit 2
id="${1:?property id}"; shift
case "$id" in
  C0[1-7]|C20) pkg=chk-map ;;
  C08|C09|C10) pkg=chk-dm ;;
  C11|C12) pkg=chk-doc ;;
  C1[3-9]|C2[0-9]) pkg=chk-ls ;;
  setup) pkg= ;;
  *) echo "unknown property $id"; exit 2 ;;
esac
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTC CARGO_BUILD_RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export SIM_VERIF_DIR="$PWD"
log="$PWD/build-$$.log"
if [ -z "$pkg" ]; then
  (cd sim && cargo build --offline --workspace) >"$log" 2>&1
else
  (cd sim && cargo build --offline -p "$pkg") >"$log" 2>&1
fi
rc=$?
if [ $rc -ne 0 ]; then
  grep -E '^(error|warning: unused)' -A6 "$log" | tail -60
  tail -5 "$log"
  rm -f "$log"
  echo "harness error: the check does not build against /repo"
  exit 2
fi
rm -f "$log"
[ -z "$pkg" ] && exit 0
exec "target/debug/$pkg" "$id" "$@"
