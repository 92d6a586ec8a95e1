#!/bin/bash
# seedtest.sh ID [pkg...]: confirms a planted bug in a scratch copy: demo passes without, fails with the
# patch; the given packages' tests pass with it.
id=$1; shift
d=/verif/seeded/$id
s=$(mktemp -d /tmp/seedXXXX)
git clone -q /repo $s/r && cd $s/r || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
cp -r $d $s/d
bash $s/d/demo.sh > $s/o1 2>&1; echo "clean demo: $?"
git apply $d/patch.diff || exit 2
go build ./... || exit 2
bash $s/d/demo.sh > $s/o2 2>&1; echo "patched demo: $?"; tail -5 $s/o2
for p in "$@"; do go test -vet=off -count=1 $p 2>&1 | tail -2; done
# the check, against the patched copy
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
VERIF_REPO=$s/r VERIF_NATIVE=1 timeout 800 /verif/bin/verif run $prop 2>&1 | grep -E "VIOLATION|UNCONF|MISM|harnesses," -A1 | cut -c1-200 | head -12
rm -rf "$s"
