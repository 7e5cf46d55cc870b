#!/bin/bash
# check.sh PROPERTY [tier]: decide one property from /repo's current source.
set -u
cd "$(dirname "$0")" || exit 3
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= HOME="${HOME:-/root}" CGO_ENABLED=0
if [ "${1:-}" = setup ] || [ ! -x bin/vsa ] || [ -n "$(find analyzer -newer bin/vsa -name '*.go' -print -quit)" ]; then
	mkdir -p bin
	t=$(mktemp -p bin vsa.XXXXXX) || exit 3
	(cd analyzer && go build -mod=vendor -o "../$t" .) || { rm -f "$t"; echo "analyzer does not build"; exit 3; }
	chmod 755 "$t"
	mv "$t" bin/vsa
fi
[ "${1:-}" = setup ] && exit 0
exec ./bin/vsa -property "$1" -tier "${2:-quick}" -repo /repo -verif "$PWD"
