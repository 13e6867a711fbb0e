#!/bin/bash
# Builds the driver once so that later builds find everything in the cache,
# and checks that the tools the checks need are there.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/../driver"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp"
go build -modfile "$tmp/go.mod" -o "$tmp/driver" .
(cd /repo && go build -o "$tmp/" ./cmd/...)
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
java -version 2> /dev/null
python3 -c 'import json'
