#!/bin/bash
# builds the engine from the vendored sources into /verif/.bin (or $1)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/.bin/eng}"
mkdir -p "$(dirname "$out")"
for g in /opt/veriftools/go1.27.3 /opt/veriftools/go1.26.10; do
  if [ -x "$g/bin/go" ]; then export PATH="$g/bin:$PATH"; break; fi
done
cd "$here/engine"
GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o "$out.tmp" .
mv "$out.tmp" "$out"
