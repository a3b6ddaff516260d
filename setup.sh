#!/bin/bash
# Builds the analyzer once (offline, dependencies are vendored) so that later builds come from the cache.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p .build evidence
cd sa && GOFLAGS=-mod=vendor GOWORK=off go build -o ../.build/gotitsa.setup .
rc=$?
rm -f ../.build/gotitsa.setup
exit $rc
