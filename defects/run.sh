#!/bin/bash
# usage: run.sh [regexp] [repo]   runs the defect demonstrations against a tree
here=$(cd "$(dirname "$0")" && pwd); repo=${2:-/repo}
s=$(mktemp -d); trap 'rm -rf "$s"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOPROXY=off
cp $repo/go.mod $s/x.mod; cp $repo/go.sum $s/x.sum
GOFLAGS= go mod edit -require=github.com/BurntSushi/toml@v0.3.1 $s/x.mod
export GOFLAGS="-mod=mod -modfile=$s/x.mod"
echo "{\"Replace\":{\"$repo/defects_verif_test.go\":\"$here/defects_verif_test.go\"}}" > $s/o.json
cd $repo && go test -vet=off -count=1 -overlay $s/o.json -run "${1:-^TestD[0-9]}" . 2>&1 | grep -E '^\s*(---|defects_verif|ok|FAIL|panic)|_test.go:[0-9]+:'
