#!/bin/bash
# run.sh ID: builds the model checker against /repo's working tree and decides property ID.
# Tier from VERIF_TIER (quick by default). Exit 0: held; 1: VIOLATION; other: error of the check.
H="$(cd "$(dirname "$0")" && pwd)"
ID="$1"
export VERIF_DIR="$(dirname "$H")" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
T=/tmp; [ -d /dev/shm ] && [ -w /dev/shm ] && T=/dev/shm
WORK="$(mktemp -d /tmp/vmc.XXXXXXXX)" || exit 3
export TMPDIR="$(mktemp -d $T/vmct.XXXXXXXX)" || exit 3
trap 'rm -rf "$WORK" "$TMPDIR"' EXIT
FLAGS=()
case "$ID" in
  C03) FLAGS=(race);;
  K05|S03) FLAGS=(realkdf);;
esac
TMPDIR=/tmp "$H/build.sh" "$WORK" "${FLAGS[@]}" || { echo "build failed" >&2; exit 3; }
mkdir -p "$VERIF_DIR/evidence/replay"
export MC_BUILD="$(cat "$WORK/mode") $(tail -1 "$WORK/d1/SITES" 2>/dev/null) statement points ${FLAGS[*]}"
"$WORK/mc" run "$ID"
