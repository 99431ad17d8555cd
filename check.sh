#!/bin/bash
# usage: check.sh ID [quick|thorough]     run one property's check against /repo's working tree
#        check.sh replay FILE             run one reported case again, verbosely
# Builds the harness (linked with /repo's packages) in a scratch directory and removes it.
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOENV=off GOWORK=off LANG=C.UTF-8
unset LC_ALL LC_MESSAGES LANGUAGE LANG_PATH VERIF_REPLAY
export GOMAXPROCS=${GOMAXPROCS:-8}
S=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
ID=${1:?usage: check.sh ID [tier]}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
PROP=$ID
if [ "$ID" = replay ]; then
  PROP=$(sed -n 's/.*"property": "\(.*\)".*/\1/p' "$2")
fi
build() { # harness sources are copied so that its go.mod can point at the tree under test
  mkdir -p "$S/h" && cp "$V"/harness/*.go "$V"/harness/go.mod "$V"/harness/go.sum "$S/h/" || return 1
  sed -i "s#=> /repo\$#=> $R#" "$S/h/go.mod" || return 1
  local race=
  [ "$PROP" = C16 ] && race=-race
  (cd "$S/h" && go build -buildvcs=false -mod=mod $race -o "$S/harness" .) || return 1
  case "$PROP" in C19|C20|C21|C27|C28|C32|C33)
    printf 'go 1.25.0\n\nuse (\n\t%s\n\t%s/cmd/xtemplate\n)\n' "$R" "$R" > "$S/go.work"
    cp "$V/harness/go.work.sum" "$S/go.work.sum" || return 1
    (cd "$R/cmd/xtemplate" && GOWORK="$S/go.work" go build -buildvcs=false -o "$S/xtemplate" .) || return 1
    export VERIF_XTEMPLATE="$S/xtemplate" VERIF_TREE="$R" ;;
  esac
}
build || { echo "build failed" >&2; exit 2; }
mkdir -p "$S/w"
export TMPDIR="$S/w"
if [ "$ID" = replay ]; then
  "$S/harness" replay -scratch "$S/w" "$2"; exit $?
fi
"$S/harness" check -prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$V" -scratch "$S/w"
