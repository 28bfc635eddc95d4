#!/bin/bash
# usage: tools/trybug.sh ID [extra check ids]   -- confirm a planted bug in a scratch copy, then run the property's check on it
set -u
id=$1; shift
S=$(cd "$(dirname "$0")/.." && pwd)
B=$S/seeded/$id
W=$(mktemp -d /tmp/bug.XXXXXX)
trap '/bin/rm -rf "$W"' EXIT
git -C /repo archive HEAD | tar x -C "$W"
# package data that git ignores
cp -an /repo/enterprise "$W/" 2>/dev/null
export PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
cd "$W"
bash "$B/demo.sh" >$W/demo0.out 2>&1; d0=$?
(cd $W && git init -q . && git apply --check "$B/patch.diff" && git apply "$B/patch.diff") || { echo "$id: PATCH DOES NOT APPLY"; exit 3; }
git apply --numstat "$B/patch.diff"
bash "$B/demo.sh" >$W/demo1.out 2>&1; d1=$?
if [ -z "${NOTEST:-}" ]; then
t=$(/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors tests 2>&1 | tail -1)
fi
echo "$id: demo clean=$d0 bug=$d1 tests: ${t:-skipped}"
[ $d0 -ne 0 ] && tail -5 $W/demo0.out
[ $d1 -eq 0 ] && tail -5 $W/demo1.out
prop=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
unset PYTHONPATH
for p in $prop "$@"; do
  (cd $S && VERIF_REPO=$W VERIF_NOEVID=1 /opt/venv/bin/python run_check.py $p 2>&1 | grep -E "VIOLATION|INCONCL|quick:" | head -${LINES_MAX:-4} | cut -c1-220; )
done
