#!/bin/bash
# Tests the simulator on small programs whose faults are known.
set -e
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
B="$VERIF/build/simtest"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" TZ=UTC CGO_ENABLED=1
mkdir -p "$B"
(cd "$VERIF/instr" && GOWORK=off go build -o "$B/instr" .)
"$B/instr" -src "$VERIF/tools/simtest/repo" -raw "$B/raw" -out "$B/sms"
printf 'go 1.21\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n' "$B/sms" "$VERIF/simrt" "$VERIF/tools/simtest" > "$B/go.work"
export GOWORK="$B/go.work" GOFLAGS="-buildvcs=false"
cd "$VERIF/tools/simtest"
go build -o "$B/simtest" .
go build -race -o "$B/simtest-race" -gcflags=verif/simrt=-race=false -gcflags=verif/simrt/time=-race=false -gcflags=verif/simrt/context=-race=false \
  -gcflags=fmt=-race=false -gcflags=strconv=-race=false -gcflags=unicode/utf8=-race=false \
  -gcflags=reflect=-race=false -gcflags=internal/fmtsort=-race=false \
  "-gcflags=verif/simtest=-race=false -l" .
"$B/simtest"
GORACE="atexit_sleep_ms=0 exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2 log_path=$B/race" "$B/simtest-race"
rm -f "$B"/race.*
