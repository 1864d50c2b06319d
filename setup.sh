#!/bin/bash
# builds the verification condition generator
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin" "$here/replays" "$here/evidence"
if [ -x "$here/bin/govc" ] && [ -z "$(find "$here/govc" -newer "$here/bin/govc" -type f)" ]; then exit 0; fi
cd "$here/govc" && GOSUMDB=off GOFLAGS=-mod=mod go build -o "$here/bin/govc.$$" . && mv "$here/bin/govc.$$" "$here/bin/govc"
