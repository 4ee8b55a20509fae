#!/bin/sh
# builds the analyser from the committed files (offline; vendored dependencies)
. /opt/vp/env.sh >/dev/null 2>&1
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" && GOSUMDB=off GOFLAGS=-mod=vendor go build -o "$here/bin/checker" .
