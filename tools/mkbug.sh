#!/bin/bash
# mkbug.sh ID PROPERTY: takes the change made in the scratch copy /tmp/wt (of /repo's HEAD) and the demo test
# /tmp/demo_ID_test.go, confirms the bug and stores it as seeded/ID.  env NEEDS, BREAKS: meta texts. SKIPTESTS=1 skips the suite.
id=$1; prop=$2; d=/verif/seeded/$id
set -e
cd /tmp/wt
mkdir -p $d
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/demo_${id}_test.go $d/demo_verif_test.go
cat > $d/demo.sh <<'D'
#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
s=$(mktemp -d); trap 'rm -rf "$s"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOWORK=off GOPROXY=off
cp $repo/go.mod $s/x.mod; cp $repo/go.sum $s/x.sum
GOFLAGS= go mod edit -require=github.com/BurntSushi/toml@v0.3.1 $s/x.mod
export GOFLAGS="-mod=mod -modfile=$s/x.mod"
echo "{\"Replace\":{\"$repo/demo_verif_test.go\":\"$here/demo_verif_test.go\"}}" > $s/o.json
cd $repo && timeout 250 go test -vet=off -count=1 -timeout 200s -overlay $s/o.json -run '^TestVerifDemo$' .
D
python3 - "$prop" "$NEEDS" "$BREAKS" > $d/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
(. /opt/vp/env.sh; cd /tmp/wt && go build ./...) || { echo "DOES NOT BUILD"; exit 1; }
if (cd /tmp/wt && bash $d/demo.sh) > /tmp/demo.$id.bad 2>&1; then echo "DEMO PASSES WITH BUG"; tail -5 /tmp/demo.$id.bad; exit 1; fi
if ! (cd /repo && bash $d/demo.sh) > /tmp/demo.$id.good 2>&1; then echo "DEMO FAILS WITHOUT BUG"; tail -20 /tmp/demo.$id.good; exit 1; fi
grep -E "_test.go|panic:" /tmp/demo.$id.bad | head -3
VERIF_REPO=/tmp/wt bash /verif/check.sh $prop quick | tail -4 | cut -c1-400
echo "bug $id ok"
