#!/bin/bash
# Adds basic-block instrumentation (the scheduler's preemption points and the
# step budget) to crates whose sources are in the repository under test.
rustc="$1"; shift
for a in "$@"; do
  case "$a" in
    ${SIM_REPO:-/repo}/crates/builtins-proc-macro/*) ;;
    ${SIM_REPO:-/repo}/crates/*build.rs) ;;
    chk-self/src/main.rs|${SIM_REPO:-/repo}/crates/*.rs)
      exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard --cfg spaceman_sim ;;
  esac
done
exec "$rustc" "$@"
