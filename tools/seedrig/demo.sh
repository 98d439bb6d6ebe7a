#!/bin/bash
# Builds the programs beside this file against the working tree in the current directory and runs them in a scratch
# directory. Exit 0: the property held. Anything else: it did not.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp "$R/go.mod" "$T/x.mod"; cp "$R/go.sum" "$T/x.sum"
echo '{"Replace":{' > "$T/overlay.json"
sep=""
for f in "$D"/*.go; do
  echo "$sep\"$R/verifdemo/$(basename "$f")\":\"$f\"" >> "$T/overlay.json"; sep=","
done
echo '}}' >> "$T/overlay.json"
go build -modfile="$T/x.mod" -overlay "$T/overlay.json" -o "$T/demo" ./verifdemo || exit 2
go build $ZREP_BUILDFLAGS -modfile="$T/x.mod" -o "$T/zrep" ./cmd || exit 2
cd "$T" || exit 2
timeout 250 ./demo "$T" > "$T/out" 2> "$T/err"
rc=$?
grep -a "^DEMO" "$T/out"
[ $rc -gt 1 ] && tail -20 "$T/err"
exit $rc
