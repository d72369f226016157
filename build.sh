#!/bin/bash
# Builds the instrumented library from /repo's working tree and the simulator
# binaries. Usage: build.sh [plain] [race]
set -e
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
B="${VERIF_BUILD:-$VERIF/build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" TZ=UTC CGO_ENABLED=1
mkdir -p "$B"
(cd "$VERIF/instr" && GOWORK=off go build -o "$B/instr" .)
"$B/instr" -src "$REPO" -raw "$B/raw" -out "$B/sms"
cat > "$B/go.work" <<W
go 1.21

use (
	$B/sms
	$VERIF/simrt
	$VERIF/harness
)
W
export GOWORK="$B/go.work" GOFLAGS="-buildvcs=false"
cd "$VERIF/harness"
for t in "$@"; do
  case $t in
  plain) go build -o "$B/sim" . ;;
  race)
    go build -race -o "$B/sim-race" \
      -gcflags=verif/simrt=-race=false \
      -gcflags=verif/simrt/time=-race=false \
      -gcflags=verif/simrt/context=-race=false \
      -gcflags=fmt=-race=false -gcflags=strconv=-race=false \
      -gcflags=unicode/utf8=-race=false -gcflags=reflect=-race=false \
      -gcflags=internal/fmtsort=-race=false \
      "-gcflags=verif/harness=-race=false -l" \
      "-gcflags=verif/harness/...=-race=false -l" . ;;
  esac
done
