#!/bin/bash
# refactor.sh NAME... (or "all"): applies each behaviour-preserving edit of refactors.py to a scratch copy of /repo and
# runs every claimed check on it; prints the checks that do not stay quiet.
cd "$(dirname "$0")/.."; V=$(pwd)
s=$(mktemp -d /tmp/refac.XXXX); trap 'rm -rf "$s"' EXIT
names="$*"; [ "$names" = all ] && names=$(python3 -c "import sys; sys.path.insert(0,'$V/tools'); import refactors; print(*refactors.R)")
ids=${IDS:-$(cat tools/done.txt)}
(cd analyzer && go build -mod=vendor -o $s/ana .) || exit 2
for n in $names; do
  mkdir -p $s/w; (cd /repo && git archive HEAD) | tar x -C $s/w
  python3 - "$V/tools" "$s/w" "$n" <<'P' || { echo "$n: DOES NOT APPLY"; rm -rf "$s/w"; continue; }
import sys; sys.path.insert(0,sys.argv[1]); import refactors
for e in [e for n in sys.argv[3].split('+') for e in refactors.R[n]]:
    f=sys.argv[2]+"/"+e[0]; t=open(f).read(); c=e[3] if len(e)>3 else 1
    k=t.count(e[1])
    if k==0 or (c==1 and k!=1) or (c>1 and k!=c): print(sys.argv[3], "matches", k, "times:", e[1][:60]); sys.exit(1)
    open(f,"w").write(t.replace(e[1],e[2]))
P
  if ! (. /opt/vp/env.sh >/dev/null 2>&1; cd $s/w && gofmt -w *.go; go vet -composites=false . 2>&1 | grep -E "^\./|vet:" | grep -v _test.go | grep -vE "Println|unkeyed|possible formatting|redundant|copylocks|non-constant format|unreachable" | head -5); then :; fi
  (. /opt/vp/env.sh >/dev/null 2>&1; cd $s/w && go build . ) 2>&1 | head -5
  bad=$(echo $ids | tr ' ' '\n' | xargs -P ${J:-6} -I{} sh -c "timeout 900 $s/ana check $s/w $s/v_$n {} quick > $s/{}.out 2>&1; r=\$?; [ \$r = 0 ] || { echo \"{}(rc=\$r)\"; }")
  if [ -n "$bad" ]; then echo "$n: ALARM" $bad; for b in $bad; do grep -B${N:-6} VIOLATION $s/${b%%(*}.out | cut -c1-${W:-400} | head -${N:-4}; grep -l VIOLATION $s/${b%%(*}.out >/dev/null || tail -3 $s/${b%%(*}.out | cut -c1-300; done; else echo "$n: quiet"; fi
  rm -rf "$s/w" "$s/v_$n"
done
