#!/bin/bash
# Runs the repository's own tests on the instrumented copy with the simulator
# inactive: instrumentation must not change behaviour.
set -e
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" TZ=UTC
B=/verif/build/selftest
rm -rf /verif/build/selftest; mkdir -p $B
(cd /verif/instr && go build -o $B/instr .)
$B/instr -src /repo -raw $B/raw -out $B/sms
(cd /repo && git ls-files '*_test.go' | grep -v '^cmd/' | tar cf - -T - | tar xf - -C $B/sms)
cp /repo/go.sum $B/sms/
cat /repo/go.mod | sed 's/^go 1\.[0-9]*/go 1.21/' > $B/sms/go.mod
cat >> $B/sms/go.mod <<E
require verif/simrt v0.0.0
replace verif/simrt => /verif/simrt
E
cd $B/sms && GOWORK=off go test ./... "$@"
