#!/bin/bash
# tools/seedtest.sh ID [CHECK...]: confirm the planted bug seeded/ID in a scratch copy of /repo
# (own mount namespace, /repo itself is not touched) and run the given checks (default: its property's) on it.
id=$1; shift
V=$(dirname "$(dirname "$(realpath "$0")")")
S=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
checks=${*:-$prop}
W=$(mktemp -d /tmp/seed-$id-XXXX)
cp -a /repo "$W/r"; mkdir "$W/demo" "$W/tmp"; cp -r "$S"/. "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
ns() { unshare -Urm bash -c "mount --bind $W/r /repo; cd /repo; $1"; }
ns "bash /opt/vp/build.sh >$W/b0.log 2>&1; timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1" && r0=ok || { r0=BAD; tail -5 $W/d0.log; }
git -C "$W/r" apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
ns "bash /opt/vp/test.sh $W/out.json >$W/t.log 2>&1"
t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(json.load(open('$W/out.json'))['passed']); print('ok' if b<=p else 'FAILS '+' '.join(sorted(b-p))[:200])")
ns "timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1" && r1=BAD-passes || r1=ok
echo "$id ($prop): demo-clean=$r0 tests=$t demo-patched=$r1"
if [ -z "$NOCHECK" ]; then
for c in $checks; do
  VERIF_REPO=$W/r VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 "$V/check.py" $c >$W/c-$c.log 2>&1; rc=$?
  echo "   check $c: rc=$rc $(grep -m1 VIOLATION $W/c-$c.log | head -c 100)"
  [ -n "$SHOW" ] && tail -12 $W/c-$c.log | cut -c1-600
done; fi
tag=$(python3 -c "import hashlib;print(hashlib.sha1(b'$W/r').hexdigest()[:8])")
rm -rf "$V/build/repo-$tag" "$V/build/lock-$tag" "$W"
