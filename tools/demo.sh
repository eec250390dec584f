#!/bin/bash
# Runs main.go (beside this file) inside the hbuf module, through an overlay.
# Its exit code is the verdict. Everything it writes is in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
echo "{\"Replace\": {\"$PWD/zz_demo/main.go\": \"$here/main.go\"}}" > "$d/overlay.json"
go build -overlay "$d/overlay.json" -o "$d/demo" ./zz_demo || exit 2
cd "$d" && timeout 60 ./demo
