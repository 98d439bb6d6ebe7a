#!/bin/bash
# usage: run.sh <property>   (VERIF_TIER, VERIF_SEED in the environment)
# Builds the harness against /repo's current working tree and runs the check of one property.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="${ZREP_REPO:-/repo}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && export PATH="$d:$PATH" && break; done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
sed "s#=> /repo#=> $R#" "$V/harness/go.mod" > "$T/h.mod"
cp "$V/harness/go.sum" "$T/h.sum"
if ! (cd "$V/harness" && go build -modfile="$T/h.mod" -o "$T/zcheck" .) > "$T/log" 2>&1; then
  cat "$T/log"; echo "cannot build the harness"; exit 2
fi
[ "$1" = list ] && { "$T/zcheck" -prop list; exit 0; }
ZREP_GO="$(command -v go)" ZREP_VERIF="$V" ZREP_REPO="$R" TMPDIR="$T" "$T/zcheck" -prop "$1"
