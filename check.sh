#!/bin/bash
# Builds the analyzer from /verif/sa and decides one property of /repo's current source.
# usage: check.sh PROPERTY [-v]
cd "$(dirname "$0")" || exit 2
export GOTIT_VERIF="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p .build
bin=".build/gotitsa.$$"
trap 'rm -f "$GOTIT_VERIF/$bin"' EXIT
if ! (cd sa && GOFLAGS=-mod=vendor GOWORK=off go build -o "../$bin" .); then
  echo "cannot build the analyzer" >&2
  exit 2
fi
"./$bin" "$@"
