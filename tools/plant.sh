#!/bin/bash
# plant.sh ID: does seeded/ID count?  Builds and tests a scratch copy with the patch, runs the demonstration on both trees.
# plant.sh ID CHECK...: also runs the checks (quick) against the scratch copy.
id=$1; shift
d=/tmp/plant-$id; rm -rf "$d"; mkdir "$d"; cp -a /repo "$d/repo"
cp -a "/verif/seeded/$id" "$d/demo"; rm -f "$d/demo/patch.diff" "$d/demo/meta.json"
PY=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$d/repo" || exit 1
(cd "$d/repo" && PYTHONPATH=$d/repo timeout 300 bash "$d/demo/demo.sh") >"$d/clean.log" 2>&1; a=$?
git apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; exit 1; }
if grep -q '^+++ .*\.\(pyx\|pxd\)' "/verif/seeded/$id/patch.diff"; then
    mkdir $d/b; for f in setup.py README.rst qmeq; do ln -s $d/repo/$f $d/b/$f; done
    (cd $d/b && CC=gcc $PY setup.py build --build-base $d/repo/build build_ext --inplace --cython -j8) >"$d/build.log" 2>&1 || { echo "$id: does not build"; tail -5 "$d/build.log"; exit 1; }
fi
PYTHONPATH=$d/repo $PY -m pytest -q -p no:cacheprovider qmeq/tests >"$d/test.log" 2>&1; t=$?
(cd "$d/repo" && PYTHONPATH=$d/repo timeout 300 bash "$d/demo/demo.sh") >"$d/bug.log" 2>&1; b=$?
echo "$id: demo clean $a (0), tests $t (0), demo planted $b (not 0): $(tail -1 "$d/test.log")"
tail -3 "$d/bug.log"
for c in "$@"; do
    (cd /verif && VERIF_REPO=$d/repo timeout 900 ./check "$c" quick >"$d/$c.log" 2>&1; echo "   $c exit $?: $(grep -v VIOLATION "$d/$c.log" | head -1 | cut -c1-150)")
done
rm -rf "$d/repo"
