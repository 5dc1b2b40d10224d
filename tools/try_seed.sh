#!/bin/bash
# try_seed.sh [-n] <id>...: applies each seed in /repo, confirms that it builds, passes the stable tests and fails its
# demonstration, runs the property's check (not with -n), and undoes it.
nocheck=; [ "$1" = -n ] && { nocheck=1; shift; }
t=/tmp/ts; mkdir -p $t
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf $t/demo; cp -a $d $t/demo; rm -f $t/demo/patch.diff $t/demo/meta.json
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
  bash /opt/vp/build.sh >$t/b.log 2>&1
  (cd /repo && bash $t/demo/demo.sh >$t/d0 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >$t/b.log 2>&1; b=$?
  bash /opt/vp/test.sh $t/o.json >/dev/null 2>&1
  m=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$t/o.json'))
print(len(set(b['stable'])-set(o['passed'])))")
  (cd /repo && timeout 300 bash $t/demo/demo.sh >$t/d1 2>&1); c=$?
  r=-; v=
  if [ -z "$nocheck" ]; then
    s=$(date +%s)
    (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p >$t/c.log 2>&1); r=$?
    v="$(grep -c "VIOLATION property=$p" $t/c.log) $(( $(date +%s) - s ))s $(grep -m1 -i "VIOLATION" -A2 $t/c.log | tr '\n' ' ' | cut -c1-200)"
  fi
  git -C /repo checkout -q -- .
  ok=OK; [ $a = 0 ] && [ $b = 0 ] && [ $m = 0 ] && [ $c != 0 ] || ok=BAD
  echo "$id $p $ok demo=$a/$c build=$b missing=$m check=$r $v"
done
bash /opt/vp/build.sh >$t/b.log 2>&1
