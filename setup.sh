#!/bin/bash
# Warms the build cache: builds the checker once in each flavour. Every check builds what it needs anyway.
H="$(cd "$(dirname "$0")" && pwd)/harness"
for f in "" race realkdf; do
  W="$(mktemp -d /tmp/vmc.XXXXXXXX)" || exit 1
  "$H/build.sh" "$W" $f || { rm -rf "$W"; exit 1; }
  rm -rf "$W"
done
