#!/bin/bash
# seed.sh ID: the change made in the scratch copy /tmp/sw becomes seeded/ID/patch.diff after confirming that it builds,
# passes the stable tests, and that the demonstration fails with it and passes without it. The scratch copy is reset.
id=$1; d=/verif/seeded/$id; export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cp /verif/tools/demo.sh.tmpl $d/demo.sh; chmod +x $d/demo.sh
cd /tmp/sw || exit 1; [ "$(git rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || echo STALE
git diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
go build ./... || { echo "DOES NOT BUILD"; git checkout -q .; exit 1; }
flaky='^github.com/inklabs/rangedb/(pkg/broadcast|pkg/rangedbui|pkg/rangedbws|provider/remotestore)$'
go test -vet=off -count=1 -timeout 2m $(go list ./... | grep -Ev "$flaky") 2>&1 | grep -av "no test files\|^ok" > /tmp/seed_$id.log; 
if grep -aq "FAIL\|panic" /tmp/seed_$id.log; then echo "TESTS FAIL"; head -20 /tmp/seed_$id.log; git checkout -q .; exit 1; fi
if $d/demo.sh > /tmp/seed_$id.demo 2>&1; then echo "DEMO PASSES WITH PATCH"; r=1; else r=0; tail -5 /tmp/seed_$id.demo; fi
git checkout -q .
if $d/demo.sh > /tmp/seed_$id.demo0 2>&1; then :; else echo "DEMO FAILS WITHOUT"; tail -20 /tmp/seed_$id.demo0; r=1; fi
[ $r = 0 ] && echo "SEED OK $id"; exit $r
