#!/bin/bash
# seed.sh ID...   confirm planted changes in a scratch copy of /repo: builds, stable tests pass, demo passes without and fails with the change
W=/tmp/seedw
if [ ! -d $W ]; then
  mkdir -p $W; cp -a /repo $W/repo
  mkdir $W/vp; cp /opt/vp/*.py /opt/vp/*.sh /opt/vp/BASELINE.json $W/vp
  sed -i "s#/repo#$W/repo#g; s#/opt/vp/#$W/vp/#g" $W/vp/*.sh $W/vp/*.py
fi
cd $W/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash $W/vp/build.sh > $W/build0.log 2>&1 || { tail -20 $W/build0.log; exit 1; }
for id in "$@"; do
  D=/verif/seeded/$id; T=$W/demo; rm -rf /tmp/seedw/demo; mkdir $T
  find $D -maxdepth 1 -type f ! -name '*.diff' ! -name '*.patch' ! -name meta.json -exec cp {} $T \;
  git checkout -q -- .; bash $W/vp/build.sh > $W/build.log 2>&1
  timeout 300 bash $T/demo.sh > $W/demo0.log 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  if [ -n "$SKIPTEST" ]; then bash $W/vp/build.sh > $W/build.log 2>&1 || { echo "$id: build failed"; tail $W/build.log; }; t=skipped
  else
    bash $W/vp/test.sh $W/out.json > $W/test.log 2>&1
    t=$(python3 - <<P
import json
o=json.load(open("$W/out.json")); b=json.load(open("$W/vp/BASELINE.json"))
p=set(o["passed"]); m=[x for x in b["stable"] if x not in p]
print("tests ok" if not m else "TESTS FAIL %d: %s"%(len(m),m[:8]))
P
)
  fi
  timeout 300 bash $T/demo.sh > $W/demo1.log 2>&1; b=$?
  git checkout -q -- .
  echo "$id: demo clean=$a patched=$b $t $([ $a = 0 ] && [ $b != 0 ] && echo GOOD || echo BAD)"
done
