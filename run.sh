#!/bin/sh
# usage: run.sh <property> <quick|thorough>
# builds the analyser if needed and decides one property on /repo's working tree
. /opt/vp/env.sh >/dev/null 2>&1
here=$(cd "$(dirname "$0")" && pwd)
bin="$here/bin/checker"
mkdir -p "$here/bin"
(cd "$here/checker" && GOSUMDB=off GOFLAGS=-mod=vendor go build -o "$bin" .) || { echo "the analyser does not build" >&2; exit 2; }
exec "$bin" -verif "$here" -property "$1" -tier "${2:-quick}"
