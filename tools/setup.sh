#!/bin/bash
# Builds the verifier and the replay harness once, to fill the build cache and to show
# that both build offline from the committed files.  The checks build them again.
set -e
cd "$(dirname "$0")/.."
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
(cd govc && go build -o "$t/govc" .)
cp harness/go.mod harness/go.sum "$t/"
(cd harness && go build -tags timetzdata -modfile "$t/go.mod" -o "$t/harness" .)
"$t/govc" -repo /repo -contracts contracts -list | wc -l
