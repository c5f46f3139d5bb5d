#!/bin/bash
# check.sh ID TIER: builds the analyzer and decides one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS= GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$here/.bin" "$here/evidence"
if ! (cd "$here/analyzer" && go build -mod=vendor -o "$here/.bin/ana.$$" .) >&2; then
  rm -f "$here/.bin/ana.$$"
  echo "the analyzer does not build"; exit 2
fi
"$here/.bin/ana.$$" check "${VERIF_REPO:-/repo}" "$here" "$1" "${2:-quick}"
rc=$?
rm -f "$here/.bin/ana.$$"
exit $rc
