#!/bin/bash
# Authoring aid: tools/against.sh DIR PROPERTY...  runs checks against another
# copy of the repository (evidence and replays go to a scratch directory).
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
dir=$(realpath "$1"); shift
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off LANG=C.UTF-8
t=$(mktemp -d /tmp/against.XXXXXX); trap 'rm -rf "$t"' EXIT
sed "s#=> /repo#=> $dir#" "$here/harness/go.mod" >"$t/go.mod"; cp "$here/harness/go.sum" "$t/go.sum"
[ -d "$here/corpus" ] && cp -r "$here/corpus" "$t/corpus"
. "$here/peers.sh"
rc=0
for id in "$@"; do
  f=""; case "$id" in C15|C31) f=-race;; esac
  (cd "$here/harness" && go build $f -modfile="$t/go.mod" -o "$t/h$f" .) || { echo "$id BUILD-FAILED"; rc=2; continue; }
  case "$id" in C29|C30) build_peers "$t/peers" -modfile="$t/go.mod"; export VERIF_PEERS=$t/peers;; esac
  VERIF_DIR=$t "$t/h$f" run "$id" >"$t/out" 2>&1; r=$?
  if [ $r = 0 ]; then echo "$id held"; elif [ $r = 1 ]; then echo "$id CAUGHT $(head -c 600 "$t/out" | tr '\n' ' ')"; [ -n "${KEEP:-}" ] && cp "$t/replays/$id.json" "$KEEP/"; rc=1; else echo "$id TROUBLE rc=$r"; head -c 1500 "$t/out"; rc=2; fi
done
exit $rc
