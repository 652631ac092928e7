#!/bin/bash
# tools/try_bug.sh ID [CHECK...]: development aid. Applies seeded/ID to a scratch copy of /repo, runs the build's import test,
# the stable tests, the demonstration both ways and the given checks (default: the bug's property) against the copy.
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed/XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a /verif "$W/verif"
mkdir "$W/demo"; cp "$S"/* "$W/demo/" 2>/dev/null; find "$W/demo" \( -name '*.diff' -o -name meta.json \) -delete
export PATH=/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$W/repo/scikit-topt NUMBA_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$W/repo" || exit 1
timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$id: PATCH FAILS"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1; r1=$?
if [ -z "$NOTEST" ]; then
  timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --basetemp="$W/tmp" scikit-topt/tests >"$W/t" 2>&1; t=$(tail -1 "$W/t")
fi
echo "$id demo clean=$r0 patched=$r1 tests: $t"
[ $r0 != 0 ] && tail -5 "$W/d0"
tail -2 "$W/d1" | sed 's/^/    /'
unset PYTHONPATH
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${@:-$p}; do
  VF_REPO=$W/repo VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash "$W/verif/run.sh" $c quick >"$W/c" 2>&1
  echo "    $id $c exit=$? $(grep -c VIOLATION "$W/c") $(grep VIOLATION "$W/c" | head -1 | cut -c1-200)"; [ -n "$SHOW" ] && cat "$W/c"
done
