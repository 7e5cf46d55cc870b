#!/bin/bash
# tryseed.sh ID [notest]: confirm one seeded change in a scratch copy of /repo and say which checks catch it.
set -u
id=$1; sd=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cd "$w/repo" || exit 1
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
git checkout -q -- . ; git clean -fdq -e /vendor >/dev/null 2>&1
bash "$sd/demo.sh" >"$w/clean.log" 2>&1; echo "demo clean: $?"; [ "${2:-}" = v ] && tail -20 "$w/clean.log"
git apply "$sd/patch.diff" || { echo "DOES NOT APPLY"; exit 1; }
git diff --stat | tail -3
cp go.mod "$w/rankdb.mod"; cp go.sum "$w/rankdb.sum"
export GOFLAGS="-mod=mod -modfile=$w/rankdb.mod"
go build ./... || { echo "DOES NOT BUILD"; exit 1; }
bash "$sd/demo.sh" >"$w/bad.log" 2>&1; echo "demo patched: $?"; tail -12 "$w/bad.log" | cut -c1-300
if [ "${2:-}" != notest ]; then
go test -json -vet=off -count=1 -timeout 10m ./... > "$w/log.json" 2>/dev/null
python3 /opt/vp/results.py "$w/o.json" "gojson:$w/log.json" >/dev/null
python3 -c "
import json;o=json.load(open('$w/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']);print('stable tests failing:',[t for t in b['stable'] if t not in p][:8])"
fi
unset GOFLAGS
mkdir -p "$w/v"; cp /verif/KNOWN_FINDINGS.txt "$w/v/"
[ -x /verif/bin/vsa ] && /verif/bin/vsa -property all -repo "$w/repo" -verif "$w/v" 2>&1 | grep -E 'VIOLATION|KNOWN|violation|error' | cut -c1-400
