#!/bin/bash
# replay.sh FILE: re-executes the recorded choices of a violation against /repo's working tree.
H="$(cd "$(dirname "$0")" && pwd)"
F="$(readlink -f "$1")"
ID="$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["Property"])' "$F")"
export VERIF_DIR="$(dirname "$H")"
WORK="$(mktemp -d /tmp/vmc.XXXXXXXX)"
trap 'rm -rf "$WORK"' EXIT
FLAGS=()
case "$ID" in C03) FLAGS=(race);; K05|S03) FLAGS=(realkdf);; esac
"$H/build.sh" "$WORK" "${FLAGS[@]}" || exit 3
mkdir -p "$WORK/scratch"
GOMAXPROCS=1 MC_SCRATCH="$WORK/scratch" "$WORK/mc" replay "$F"
