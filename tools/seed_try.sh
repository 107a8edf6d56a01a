#!/bin/bash
# seed_try.sh <seeded id>...: confirm in a scratch copy that each planted bug applies, builds, passes the tests, and that its demo tells it apart
W=/tmp/seedwt; DEMO=/tmp/seeddemo
for id in "$@"; do
  S=/verif/seeded/$id
  rm -rf /tmp/seedwt /tmp/seeddemo; cp -a /repo $W; cp -r $S $DEMO; rm -f $DEMO/*.diff $DEMO/meta.json
  ( cd $W && timeout 300 bash $DEMO/demo.sh >/tmp/seed0.log 2>&1 ); a=$?
  ( cd $W && git apply $S/patch.diff ) || { echo "$id: patch does not apply"; continue; }
  ( cd $W && timeout 300 bash $DEMO/demo.sh >/tmp/seed1.log 2>&1 ); b=$?
  ( cd $W && CARGO_TARGET_DIR=/tmp/seedtgt cargo test --offline --lib 2>&1 | tail -60 >/tmp/seedt.log )
  t=$(python3 - <<'P'
import json,re
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=open('/tmp/seedt.log').read()
ok=set(re.findall(r'test (\S+) \.\.\. ok',o))
m=[x for x in b if x.split('lib.rs::')[-1] not in ok]
print('tests ok' if not m else 'tests MISSING %s'%m[:3])
P
)
  echo "$id: unchanged=$a (want 0) patched=$b (want !=0) $t"
  [ $a = 0 ] || grep -m2 -A2 panicked /tmp/seed0.log
  grep -m2 -A1 panicked /tmp/seed1.log | sed 's/^/   /'
done
rm -rf /tmp/seedwt /tmp/seeddemo
