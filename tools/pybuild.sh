#!/bin/bash
# Build the Python extension of /repo's current tree into /verif/build/site (importable as `interpn`).
# usage: pybuild.sh [target dir] [site dir]
set -e
T=${1:-/verif/build/pyext}; S=${2:-/verif/build/site}
cd /repo
export CARGO_TARGET_DIR=$T PYO3_PYTHON=/opt/vp/venv/bin/python CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false
cargo rustc --lib --crate-type cdylib --features python,fma --offline >&2
rm -rf "$S.new"; mkdir -p "$S.new/interpn" "$S.new/interpn-0.0.0.dist-info"
cp src/interpn/*.py src/interpn/py.typed "$S.new/interpn/" 
cp "$T/debug/libinterpn.so" "$S.new/interpn/interpn.abi3.so"
V=$(sed -n 's/^version *= *"\(.*\)"/\1/p' Cargo.toml | head -1)
printf 'Metadata-Version: 2.1\nName: interpn\nVersion: %s\n' "$V" > "$S.new/interpn-0.0.0.dist-info/METADATA"
rm -rf "$S"; mv "$S.new" "$S"
