#!/bin/bash
# plant.sh ID...: confirms planted bugs in a scratch copy of /repo: applies, builds, stable tests pass, demo 0 without and nonzero with
BASE=480b062
P=/tmp/plant
rm -rf /tmp/plant /tmp/plantdemo
cp -a /repo $P
# the build directory refers to /repo by absolute path: use a private mount-free build
cat > /tmp/plant_build.sh <<'X'
set -e
cd /tmp/plant
if [ ! -f /tmp/plantb/build.ninja ]; then
  CC=gcc CXX=g++ cmake -S /opt/vp/cmake -B /tmp/plantb -G Ninja -DEKF_CAL_DIR=/tmp/plant -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O1 -g1 -Wno-error" >/dev/null
fi
ninja -C /tmp/plantb -j8 >/tmp/plantb.log 2>&1 || { tail -20 /tmp/plantb.log; exit 1; }
rm -rf /tmp/plant/_build; ln -s /tmp/plantb /tmp/plant/_build
X
bash /tmp/plant_build.sh || exit 1
for id in "$@"; do
  S=/verif/seeded/$id
  rm -rf /tmp/plantdemo; mkdir /tmp/plantdemo
  cp -r $S/* /tmp/plantdemo/; rm -f /tmp/plantdemo/*.diff /tmp/plantdemo/meta.json
  git -C /repo apply --check $S/patch.diff || { echo "$id: does not apply"; continue; }
  # removed lines must be lines of the original repository
  python3 - $S/patch.diff <<'X'
import re,subprocess,sys
f=None; n=0; bad=0; rem=0
for l in open(sys.argv[1]):
    if l.startswith('--- '): f=l[6:].strip()
    elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('+'): pass
    elif l.startswith('-') :
        rem+=1
        b=subprocess.run(['git','-C','/repo','blame','-s','-L','%d,%d'%(n,n),f],capture_output=True,text=True).stdout
        if not b.startswith('^480b062'): bad+=1; print('  NOT ORIGINAL',f,n,b.strip())
        n+=1
    elif l.startswith(' '): n+=1
print('  removed lines: %d, not original: %d'%(rem,bad))
X
  (cd $P && sed -i "s#/repo#/tmp/plant#g" /tmp/plantdemo/demo.sh; timeout 300 bash /tmp/plantdemo/demo.sh >/tmp/demo0.log 2>&1); r0=$?
  git -C $P apply $S/patch.diff
  if ! bash /tmp/plant_build.sh; then echo "$id: does not build"; git -C $P checkout -q -- .; continue; fi
  (cd $P && timeout 300 bash /tmp/plantdemo/demo.sh >/tmp/demo1.log 2>&1); r1=$?
  mkdir -p /tmp/plantb/ws/build/ekf_cal; rm -rf /tmp/plantb/ws/build/ekf_cal/*
  ctest --test-dir /tmp/plantb -j1 --timeout 300 --output-junit /tmp/plantb/ctest.xml >/tmp/plantt.log 2>&1
  sed 's/ classname="[^"]*"//' /tmp/plantb/ctest.xml > /tmp/plantb/junit.xml
  python3 /opt/vp/results.py /tmp/plantt.json junit:/tmp/plantb/junit.xml >/dev/null
  t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/plantt.json'))['passed'])
print('ok' if b<=t else 'FAIL %s'%sorted(b-t))")
  git -C $P checkout -q -- .
  echo "$id: demo clean=$r0 patched=$r1 tests=$t"
  [ $r0 = 0 ] || tail -5 /tmp/demo0.log
  [ $r1 != 0 ] && tail -2 /tmp/demo1.log
done
rm -rf /tmp/plant /tmp/plantdemo
