#!/bin/bash
# bug.sh PATCH [-t] [-d DEMO] PROPS...: runs checks against a copy of /repo (bound over /repo in
# a private mount namespace) with PATCH applied (a file, or revert:COMMIT).  -t: the stable tests too.
here="$(cd "$(dirname "$0")/.." && pwd)"
P=$1; shift; T=; DEMO=
while [[ $1 == -* ]]; do
  case $1 in -t) T=1; shift;; -d) DEMO=$2; shift 2;; esac
done
W=$(mktemp -d /tmp/bug.XXXXXX); cp -a /repo $W/repo; mkdir $W/verif
cp -a $here/pbt $here/run.sh $here/run_check.py $here/known-findings.txt $here/corpus $W/verif/; mkdir $W/verif/evidence $W/verif/replays
export W P T DEMO PROPS="$*"
unshare -m bash <<'X'
mount --bind $W/repo /repo; cd /repo
if [ -n "$DEMO" ]; then bash $DEMO >$W/demo0 2>&1; echo "demo clean: $?"; fi
case $P in
 none) ;;
 revert:*) git revert -n ${P#revert:} >/dev/null 2>&1 || { git show ${P#revert:} | patch -R -p1 -s >/dev/null|| { echo "REVERT FAILED $P"; exit; }; };;
 *) git apply $P || { echo "APPLY FAILED $P"; exit; };;
esac
bash /opt/vp/build.sh >$W/build 2>&1 || { echo "BUILD FAILED $P"; tail -5 $W/build; exit; }
if [ -n "$DEMO" ]; then bash $DEMO >$W/demo1 2>&1; echo "demo patched: $?"; tail -3 $W/demo1; fi
if [ -n "$T" ]; then
 bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
 python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('$W/t.json'))['passed'])
print('tests lost:', sorted(b-t))"
fi
for p in $PROPS; do
  timeout 900 bash $W/verif/run.sh $p --no-build --tier quick > $W/out 2>&1; rc=$?
  if [ $rc = 1 ]; then echo "$P $p CAUGHT: $(grep -v VIOLATION $W/out | tail -1 | cut -c1-220)"; else echo "$P $p MISSED rc=$rc: $(tail -1 $W/out | cut -c1-200)"; fi
done
X
rm -rf "$W"
