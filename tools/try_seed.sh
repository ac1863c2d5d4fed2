#!/bin/bash
# usage: try_seed.sh ID [PROPERTY...]   validates seeded/ID in a scratch copy and runs the checks of the given properties on it
# (default: the property in meta.json). Development aid, not used by any check.
ID=$1; shift; V=/verif; D=$V/seeded/$ID; W=/tmp/sw-$ID
CM() { cmake -S $1 -B $1/_b -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=Release -Dtest=ON -DCMAKE_PROJECT_boofcpp_all_INCLUDE=/opt/vp/gtest_from_apt.cmake -DJAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64 -DJAVA_AWT_INCLUDE_PATH=/usr/lib/jvm/java-17-openjdk-amd64/include >/dev/null 2>&1 && ninja -C $1/_b -j6 >$1/_b/log 2>&1; }
rm -rf $W; git clone -q /repo $W || exit 9
( cd $W && git apply --check $D/patch.diff ) || { echo "$ID: PATCH DOES NOT APPLY"; exit 9; }
( cd $W && timeout 300 bash $D/demo.sh >/tmp/demo-$ID.log 2>&1 ) || { echo "$ID: DEMO FAILS ON BASE"; tail -5 /tmp/demo-$ID.log; rm -rf $W; exit 9; }
( cd $W && git apply $D/patch.diff )
CM $W || { echo "$ID: BUILD FAILS"; tail -20 $W/_b/log; rm -rf $W; exit 9; }
python3 /opt/vp/run_gtests.py $W/_b $W/_b/res.txt >/dev/null 2>&1; python3 /opt/vp/results.py $W/_b/out.json lines:$W/_b/res.txt >/dev/null
python3 - $W/_b/out.json <<'P' || { echo "$ID: TESTS FAIL"; rm -rf $W; exit 9; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return set(d[k])
    raise SystemExit('keys %s'%list(d))
miss=names(b)-names(o); print(len(names(o)),'pass',sorted(miss)[:5]); sys.exit(1 if miss else 0)
P
if ( cd $W && timeout 300 bash $D/demo.sh >/tmp/demo-$ID.log 2>&1 ); then echo "$ID: DEMO PASSES WITH PATCH"; rm -rf $W; exit 9; fi
P="$@"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for p in $P; do
  PBT_REPO=$W timeout 900 python3 $V/check.py $p quick >/tmp/chk-$ID-$p.log 2>&1; rc=$?
  echo "$ID: $p rc=$rc $(grep -m1 -v '^VIOLATION' /tmp/chk-$ID-$p.log | cut -c1-160)"
done
rm -rf $W
