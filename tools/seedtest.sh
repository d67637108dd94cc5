#!/bin/bash
# development: seedtest.sh <seed id> [check ids...]  - validate one planted bug in a scratch copy and run checks against it
here=$(cd "$(dirname "$0")/.." && pwd)
s="$here/seeded/$1"; id=$1; shift
t=$(mktemp -d /tmp/seed.XXXXXX) || exit 2
trap 'case "$t" in /tmp/seed.??????) find "$t" -depth -delete;; esac' EXIT
cp -a /repo "$t/repo"; cp -a "$s" "$t/demo"; find "$t/demo" -name '*.diff' -delete
cd "$t/repo" && git checkout -q -- . 
prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$s/meta.json")
export PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
timeout 300 bash "$t/demo/demo.sh" >"$t/o1" 2>&1; a=$?
[ $a = 0 ] || { echo "$id: DEMO FAILS ON CLEAN TREE ($a)"; tail -5 "$t/o1"; exit 1; }
git apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
timeout 300 bash "$t/demo/demo.sh" >"$t/o2" 2>&1; b=$?
[ $b != 0 ] || { echo "$id: DEMO PASSES WITH PATCH"; exit 1; }
PYTHONPATH="$t/repo" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=100 -o junit_family=xunit2 --junitxml="$t/j.xml" tests >"$t/t" 2>&1
python3 /opt/vp/results.py "$t/o.json" junit:"$t/j.xml" >/dev/null
python3 - "$t/o.json" <<'P' || { echo "$id: TESTS FAIL"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
missing=set(b['stable'])-set(o['passed'])
if missing: print(sorted(missing)[:6])
sys.exit(bool(missing) or len(o['passed'])<200)
P
for c in ${@:-$prop}; do
  VERIF_REPO="$t/repo" "$here/check" $c >"$t/c" 2>&1; r=$?
  echo "$id ($prop): demo 0/$b; check $c rc=$r $(grep -E "^$c:" "$t/c" | head -1 | cut -c1-260)"
done
