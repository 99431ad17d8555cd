#!/bin/bash
# Warms Go's build cache (plain and race builds of the harness); the checks build what they need themselves.
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOENV=off GOWORK=off
S=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
mkdir "$S/h" && cp "$V"/harness/*.go "$V"/harness/go.mod "$V"/harness/go.sum "$S/h/" || exit 1
sed -i "s#=> /repo\$#=> $R#" "$S/h/go.mod"
cd "$S/h" && go build -buildvcs=false -mod=mod -o "$S/a" . && go build -buildvcs=false -mod=mod -race -o "$S/b" .
