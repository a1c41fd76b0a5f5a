#!/bin/bash
# build.sh OUT: builds OUT/simcheck from the current working tree of /repo.
# Everything is written below OUT; /repo is only read.
set -eo pipefail
OUT="$1"; [ -n "$OUT" ] || { echo "usage: build.sh OUT" >&2; exit 2; }
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${SIM_REPO:-/repo}"
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${SIM_GOCACHE:-/root/.cache/go-build}"
export GOFLAGS=-mod=mod
SLOTS="${SIM_SLOTS:-4}"
mkdir -p "$OUT"
OUT="$(cd "$OUT" && pwd)"
rm -rf "$OUT/src" "$OUT/slots" "$OUT/main"
mkdir -p "$OUT/src" "$OUT/slots" "$OUT/main"

# 1. a copy of the client without tests, with its generated version file
(cd "$REPO/client" && find . \( -name .git -o -path ./bin -o -path ./generated \) -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum \) ! -name '*_test.go' -print0 | tar -cf - --null -T -) | tar -xf - -C "$OUT/src"
VERSION="$(tr -d '[:space:]' < "$REPO/VERSION")"
mkdir -p "$OUT/src/generated"
printf 'package generated\n\nconst ClientVersion = "%s"\n' "$VERSION" > "$OUT/src/generated/version.go"

# 2. rewrite it
(cd "$VERIF/gotools" && go build -o "$OUT/simrewrite" ./simrewrite)
(cd "$OUT/src" && "$OUT/simrewrite" -src "$OUT/src" -out "$OUT/slots" -slots "$SLOTS")

# 3. link it with the simulator
{
  echo "module alda.simmain"; echo; echo "go 1.26.0"; echo
  sed -n '/^require/,/^)/p' "$REPO/client/go.mod"
  echo
  echo "require alda.sim v0.0.0"
  echo "require slots.sim v0.0.0"
  echo "replace alda.sim => $VERIF/sim"
  echo "replace slots.sim => $OUT/slots"
} > "$OUT/main/go.mod"
cp "$REPO/client/go.sum" "$OUT/main/go.sum"
cat > "$OUT/main/main.go" <<'G'
package main

import (
	"alda.sim/check"
	_ "slots.sim/all"
)

func main() { check.Main() }
G
(cd "$OUT/main" && go build -ldflags="-s -w -X alda.sim/check.AldaVersion=$VERSION" -o "$OUT/simcheck" .)
