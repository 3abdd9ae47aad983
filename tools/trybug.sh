#!/bin/bash
# Dev helper: trybug.sh ID...: apply in a scratch copy of /repo, build there is not possible (build.sh is fixed to /repo), so work in /repo and undo.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  n=$(python3 -c "
import json;t=json.load(open('/tmp/t.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']
r=t.get('results',t); p=t.get('passed',[k for k,v in r.items() if v in ('passed','pass',True)] if isinstance(r,dict) else [])
print(len([x for x in s if x in p]),'/',len(s))")
  bash $d/demo.sh >/tmp/demo1.log 2>&1; c=$?
  echo "$id [$p]: demo clean=$a build=$b tests=$n demo patched=$c"
  [ -n "$NOCHECK" ] || (cd /verif && python3-vt check.py $p --tier quick 2>&1 | grep -E 'VIOLATION|held|quiet' | head -4 | cut -c1-200)
  git -C /repo checkout -- .
done
bash /opt/vp/build.sh >/tmp/build.log 2>&1
