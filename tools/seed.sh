#!/bin/bash
# seed.sh ID: validates /verif/seeded/ID in a scratch copy and runs its property's check on it.
set -u
id=$1
s=/verif/seeded/$id
w=/tmp/seedwt.$$
trap 'rm -rf "$w"' EXIT
cp -a "${SREPO:-/repo}" "$w"
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
. /opt/vp/env.sh
cd "$w"
(bash "$s/demo.sh" > /tmp/seed.$id.0 2>&1) || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/seed.$id.0; exit 1; }
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./pkg/build ./pkg/golang ./pkg/dart ./pkg/java ./pkg/typescript ./cmd || { echo "$id: does not build"; exit 1; }
go test -vet=off -count=1 . ./pkg/golang > /tmp/seed.$id.t 2>&1 || { echo "$id: stable tests?"; grep -E '^\s*--- FAIL' /tmp/seed.$id.t; }
rm -rf bin E:*
if (bash "$s/demo.sh" > /tmp/seed.$id.1 2>&1); then echo "$id: demo PASSES with the patch"; exit 1; fi
[ "${2:-}" = "-n" ] && { echo "$id valid"; exit 0; }
t0=$(date +%s)
/verif/bin/symgo -p "${2:-$prop}" -tier quick -verif /verif -repo "$w" > /tmp/seed.$id.c 2>&1
rc=$?
echo "$id: check ${2:-$prop} rc=$rc $(( $(date +%s)-t0 ))s: $(grep -m1 VIOLATION /tmp/seed.$id.c | cut -c1-160)"
