#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   (checks /repo's working tree)
# exit 0: holds on everything explored; 1: VIOLATION line printed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence"
(
  flock 9
  (cd "$here/engine" && go build -o "$here/bin/symgo" .) || exit 3
) 9>"$here/bin/.lock" || { echo "engine build failed"; exit 3; }
[ "${1:-}" = "--setup" ] && exit 0
exec "$here/bin/symgo" -p "$1" -tier "${2:-quick}" -verif "$here" -repo /repo
