#!/bin/bash
# plant.sh ID PROPERTY [CHECK...]: validate /verif/seeded/ID against a scratch copy of /repo and run checks on it
set -u
id=$1; shift; checks="$@"
d=/verif/seeded/$id
w=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo/. $w/
cd $w
cp -a $d/. /tmp/demo_$id 2>/dev/null || cp -a $d /tmp/demo_$id
rm -f /tmp/demo_$id/*.diff /tmp/demo_$id/meta.json
run_demo() { (cd $1 && PLANT_REPO=$1 timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/demo_$id.out 2>&1); echo $?; }
a=$(run_demo $w)
git apply $d/patch.diff || { echo "PATCH FAILS"; rm -rf $w /tmp/demo_$id; exit 1; }
b=$(run_demo $w)
export PYTHONPATH=$w/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
t=$(/opt/venv/bin/python -B -m pytest -q -x -n 8 2>&1 | tail -1 || true)
echo "$id: demo clean=$a patched=$b tests: $t"
for c in $checks; do (cd /verif && VERIF_REPO=$w timeout 900 python3 run.py $c 2>&1 | grep -v "^minimal" | cut -c1-220 | tail -3); done
rm -rf $w /tmp/demo_$id
