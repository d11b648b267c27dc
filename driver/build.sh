#!/bin/bash
# build the MIR exporter into $1
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; mkdir -p "$out"
rustc +nightly --edition 2021 -C opt-level=1 -A warnings -o "$out/rnv-driver.tmp.$$" "$here/src/main.rs" --crate-name rnv_driver
mv "$out/rnv-driver.tmp.$$" "$out/rnv-driver"
