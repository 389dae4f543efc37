#!/bin/bash
# Copy the Python binding's sources into a crate of their own, to build them against the stand-in cpython.
set -e
root="${VERIF_ROOT:-/verif}"
src="/repo/python/src"
dst="$root/target/pygen"
mkdir -p "$dst/src"
cat > "$dst/Cargo.toml.new" <<T
[package]
name = "rondapy"
version = "0.1.0"
edition = "2018"

[dependencies]
libronda = { path = "/repo/core" }
cpython = { path = "$root/pyharness/cpython" }
T
cmp -s "$dst/Cargo.toml.new" "$dst/Cargo.toml" && rm -f "$dst/Cargo.toml.new" || mv "$dst/Cargo.toml.new" "$dst/Cargo.toml"
# files that went away
(cd "$dst/src" && find . -type f) | while read -r f; do [ -e "$src/$f" ] || rm -f "$dst/src/$f"; done
# files that are new or changed (keep the others' times: cargo looks at them)
(cd "$src" && find . -type f) | while read -r f; do
  cmp -s "$src/$f" "$dst/src/$f" || { mkdir -p "$dst/src/$(dirname "$f")"; cp "$src/$f" "$dst/src/$f"; }
done
