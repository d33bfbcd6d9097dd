#!/bin/bash
# seedtest.sh ID [check|full]: try a planted bug in a scratch copy (never in /repo)
# full: also the stable tests.  Prints demo results and the verdict of the property's check.
id=$1; mode=${2:-check}; S=/verif/seeded/$id; D=/tmp/w/seed_$id
rm -rf "$D"; mkdir -p /tmp/w; cp -a /repo "$D"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$D"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
T=/tmp/w/demo_$id; rm -rf "$T"; cp -r "$S" "$T"; rm -f "$T"/patch.diff "$T"/meta.json
(bash "$T/demo.sh" >/dev/null 2>&1; echo "$id demo unpatched: $? (want 0)")
git apply "$S/patch.diff" || { echo "$id PATCH FAILS"; rm -rf "$D" "$T"; exit 1; }
(bash "$T/demo.sh" >/tmp/w/demo_$id.out 2>&1; echo "$id demo patched: $? (want nonzero)")
if [ "$mode" = full ]; then
  timeout 1200 env PYTHONPATH=/opt/vp/plugins /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed -n 6 --dist loadfile --timeout=600 --ignore=tests/test_paramdmd.py $(git diff --name-only | grep -q costs || echo --ignore=tests/test_mrcosts.py --ignore=tests/test_costs.py) tests --junitxml=/tmp/w/j_$id.xml 2>&1 | tail -8
fi
VERIF_REPO=$D timeout 900 /opt/venv/bin/python /verif/check.py $prop --noev 2>&1 | tail -4 | cut -c1-400
rm -rf "$D" "$T"
