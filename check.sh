#!/bin/bash
# bash /verif/check.sh PROPERTY      run the check of one property (VERIF_SEED, VERIF_TIER)
# bash /verif/check.sh replay FILE   run a replay file
# bash /verif/check.sh setup         build everything once
# Exit 0: held. 1: VIOLATION printed. Anything else: the check itself had a problem.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset RUNEWIDTH_EASTASIAN LC_ALL LC_CTYPE GOEXPERIMENT GODEBUG
export LANG=C.UTF-8
race_props=" C15 C31 "
bin=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
build() { # OUT [flags]
  local out=$1; shift
  (cd "$here/harness" && go build "$@" -o "$out" .) >"$bin/log" 2>&1 && return 0
  echo "the harness does not build against /repo:" >&2; cat "$bin/log" >&2; return 1
}
. "$here/peers.sh"
peers_for() { case "$1" in C29|C30) build_peers "$bin/peers"; export VERIF_PEERS=$bin/peers;; esac; }
flags_for() { case "$race_props" in *" $1 "*) echo -race;; esac; }
case "${1:-}" in
  setup) build "$bin/h" && build "$bin/hr" -race || exit 2; build_peers "$bin/peers"; "$bin/h" list >/dev/null || exit 2; echo ok; exit 0;;
  replay)
    id=$(sed -n 's/^ *"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
    build "$bin/h" $(flags_for "$id") || exit 2
    peers_for "$id"
    "$bin/h" replay "$2"; exit $?;;
  C*) build "$bin/h" $(flags_for "$1") || exit 2
    peers_for "$1"
    "$bin/h" run "$1"; exit $?;;
  *) sed -n 2,5p "$0" >&2; exit 2;;
esac
