#!/bin/bash
# tools/bug.sh new            fresh scratch copy in /tmp/w
# tools/bug.sh keep ID PROP   validates the change in /tmp/w and stores it (demo in /verif/seeded/ID/demo.sh must exist)
# tools/bug.sh run ID [PROP]  runs the check of the property against the bug
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
case $1 in
new) rm -rf /tmp/w; cp -a /repo /tmp/w;;
keep)
  d=$V/seeded/$2; mkdir -p $d
  git -C /tmp/w diff -- . > $d/patch.diff
  [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
  (cd /repo && timeout 300 bash $d/demo.sh > /tmp/demo.out 2>&1); a=$?
  if git -C /tmp/w diff --name-only | grep -qE '\.(pyx|h|cpp)$'; then (cd /tmp/w && rm -f beam_telescope_analysis/analysis_functions*.so beam_telescope_analysis/cpp/analysis_functions.cpp && /opt/venv/bin/python setup.py build_ext --inplace >/tmp/w.log 2>&1) || echo BUILD FAILED; fi
  (cd /tmp/w && timeout 300 bash $d/demo.sh > /tmp/demo2.out 2>&1); b=$?
  t=$(cd /tmp/w/beam_telescope_analysis/testing && timeout 600 /opt/venv/bin/python -m pytest -q --tb=line -p no:cacheprovider --rootdir=/tmp/w --continue-on-collection-errors . 2>&1 | tail -1)
  echo "clean=$a patched=$b tests: $t"; [ $a = 0 ] || tail -5 /tmp/demo.out; tail -3 /tmp/demo2.out;;
run)
  p=${3:-$(python3 -c "import json;print(json.load(open('$V/seeded/$2/meta.json'))['property'])")}
  rm -rf /tmp/r_$2; cp -a /repo /tmp/r_$2; (cd /tmp/r_$2 && git apply $V/seeded/$2/patch.diff) || exit 2
  cp $V/evidence/$p.json /tmp/ev_$p.json 2>/dev/null
  VF_REPO=/tmp/r_$2 VERIF_SEED=1 $V/bin/check $p --tier quick 2>&1 | grep -E "VIOLATION|PASS|error" | head -3
  cp /tmp/ev_$p.json $V/evidence/$p.json 2>/dev/null
  rm -rf /tmp/r_$2;;
esac
