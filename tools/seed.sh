#!/bin/bash
# usage: tools/seed.sh ID [check|demo|full]   Verifies one planted bug in a scratch copy of /repo:
# demo passes without and fails with the patch, the tests still pass, and what the check says.
id=$1; what=${2:-full}
sd=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")
c=/tmp/seedcopy-$id; [ -d "$c" ] && find "$c" -delete
mkdir -p $c && cp -a /repo/. $c/
demo() { (cd $c && env PYTHONPATH=$c/src:$c/native/python/src:/opt/vp/plugins PYTHONDONTWRITEBYTECODE=1 bash $sd/demo.sh) > /tmp/seed-$id.$1.log 2>&1; echo "$id demo $1: rc=$?"; }
if [ $what != check ]; then demo clean; fi
git -C $c apply $sd/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
if [ $what != check ]; then demo patched; fi
if [ $what = full ]; then
  sed "s#/repo#$c#g" /opt/vp/test.sh > /tmp/seed-$id-test.sh; sed -i "s#^cd $c#cd $c; export PYTHONPATH=$c/src:$c/native/python/src:/opt/vp/plugins#; s#^cmake.*##; s#^rm -f native.*##" /tmp/seed-$id-test.sh
  bash /tmp/seed-$id-test.sh /tmp/seed-$id.json > /tmp/seed-$id.test.log 2>&1; echo "$id tests: $(tail -1 /tmp/seed-$id.test.log)"
fi
if [ $what != demo ]; then
  cd /verif && VERIF_REPO=$c VERIF_SEED=1 ./check $prop quick > /tmp/seed-$id.check.log 2>&1; rc=$?
  echo "$id check $prop rc=$rc $(grep -c '^VIOLATION property='$prop /tmp/seed-$id.check.log) $(grep -m1 'violated:' /tmp/seed-$id.check.log | cut -c1-240)"
fi
find $c -delete
