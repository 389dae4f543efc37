#!/bin/bash
# RUSTC_WRAPPER: compile the crate under test (and only it) with coverage counters.
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && { [ "$a" = "ronda" ] || [ "$a" = "rondapy" ]; }; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters
  fi
  prev="$a"
done
exec "$rustc" "$@"
