#!/bin/bash
# seedtest.sh ID...: run the repository's stable tests with each seeded bug applied (in a private mount of a scratch copy of /repo).
W=/tmp/seedw; mkdir -p $W /tmp/seedres
[ -d $W/repo ] || cp -a /repo $W/repo
for id in "$@"; do
  git -C $W/repo fetch -q /repo HEAD && git -C $W/repo checkout -q -f FETCH_HEAD
  git -C $W/repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  unshare -Urm bash -c "mount --bind $W/repo /repo && timeout 1500 bash /opt/vp/test.sh /tmp/seedres/$id.json > /tmp/seedres/$id.log 2>&1"
  git -C $W/repo checkout -q -- .
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedres/%s.json'%sys.argv[1]))
base=b if isinstance(b,list) else b.get('passed') or b.get('tests') or b.get('stable')
miss=sorted(set(base)-set(r['passed']))
print(sys.argv[1], 'OK' if not miss else 'CAUGHT BY TESTS %s'%miss[:6])
P
done
