#!/bin/bash
# Warms Go's build cache for the checker; every check builds what it needs itself.
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
t=$(mktemp -d) && cp -r "$root/mc" "$t/mc" && cd "$t/mc" && go build -buildvcs=false -o "$t/bin" . ; r=$?
rm -rf "$t"; exit $r
