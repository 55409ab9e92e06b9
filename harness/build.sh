#!/bin/bash
# build.sh WORK [race] [realkdf]: builds the model checker against /repo's current working tree.
# Leaves WORK/mc (the checker), WORK/d1 (instrumented copy), WORK/mode (instrumented|plain).
set -u
H="$(cd "$(dirname "$0")" && pwd)"
WORK="$1"; shift
RACE=""; KDF=""
for a in "$@"; do case "$a" in race) RACE=1;; realkdf) KDF="-realkdf";; esac; done
REPO="${VERIF_REPO:-/repo}"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$WORK" || exit 3
(cd "$H/instr" && go build -o "$WORK/instr" .) || exit 3

modfile() {
  {
    echo "module verif.local/mc"; echo; echo "go 1.23"; echo
    echo "require ("
    echo "	github.com/cybercryptio/d1-lib/v2 v2.0.0-00010101000000-000000000000"
    echo "	verif.local/shim v0.0.0-00010101000000-000000000000"
    echo ")"; echo
    awk '/^require \(/{p=1} p{print} /^\)/{p=0} /^require [^(]/{print}' "$WORK/d1/go.mod"
    echo
    echo "replace github.com/cybercryptio/d1-lib/v2 => $WORK/d1"
    echo "replace verif.local/shim => $H/shim"
    [ -d "$WORK/bbolt" ] && echo "replace go.etcd.io/bbolt => $WORK/bbolt"
  } > "$WORK/go.mod"
  cp "$REPO/go.sum" "$WORK/go.sum"
}

try() { # mode, flags of the instrumenter
  rm -rf "$WORK/d1" "$WORK/bbolt"
  local name="$1"; shift
  "$WORK/instr" -repo "$REPO" -out "$WORK/d1" -bolt "$WORK/bbolt" "$@" $KDF || return 1
  modfile
  local flags=()
  [ -n "$RACE" ] && flags=(-race "-gcflags=all=-d=checkptr=0")
  (cd "$H/mc" && go build -modfile "$WORK/go.mod" "${flags[@]}" -o "$WORK/mc" .) || return 1
  echo "$name" > "$WORK/mode"
}

# Code the instrumenter cannot handle is left alone: first the files the compiler complains about, in the
# end all of them.
if [ -z "${VERIF_PLAIN:-}" ]; then
  SKIP=""
  for n in 1 2 3 4 5; do
    try "instrumented${SKIP:+ without $SKIP}" ${SKIP:+-skip "$SKIP"} 2> "$WORK/build.log" && exit 0
    cat "$WORK/build.log" >&2
    MORE="$(grep -o "^$WORK/d1/[^:]*\.go:" "$WORK/build.log" | sed "s|^$WORK/d1/||; s|:$||" | sort -u | tr '\n' ',')"
    [ -n "$MORE" ] || break
    SKIP="$SKIP$MORE"
    echo "build.sh: instrumented build failed, leaving $MORE alone" >&2
  done
fi
try plain -plain 2> "$WORK/build.log" && exit 0
cat "$WORK/build.log" >&2
try "plain, plain bbolt" -plain -plainbolt
