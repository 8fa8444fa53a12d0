#!/bin/bash
# Builds the symbolic executor into $1 (default: /verif/bin/gosym), offline.
set -e
cd "$(dirname "$0")/gosym"
out=${1:-$(pwd)/../bin/gosym}
mkdir -p "$(dirname "$out")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GOPROXY=off
go build -o "$out.$$" .
mv -f "$out.$$" "$out"
