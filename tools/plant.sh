#!/bin/bash
# usage: tools/plant.sh SEEDED_DIR [check ids...]: validate a planted bug in a scratch copy of /repo and run checks against it (development aid)
dir=$(realpath "$1"); shift
id=$(basename "$dir")
here="$(cd "$(dirname "$0")/.." && pwd)"
w=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
. /opt/vp/env.sh
cd "$w/repo" || exit 2
d0=$(timeout 300 bash "$dir/demo.sh" >"$w/d0" 2>&1; echo $?)
git apply "$dir/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
d1=$(timeout 300 bash "$dir/demo.sh" >"$w/d1" 2>&1; echo $?)
[ "$d0" = 0 ] || { echo "$id: demo fails on the unchanged tree"; tail -5 "$w/d0"; }
[ "$d1" != 0 ] || echo "$id: demo passes with the patch"
if [ -z "$NOTEST" ]; then
  PYTHONPATH="$w/repo/src:/opt/vp/plugin" /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_seed --timeout=300 tests >"$w/t" 2>&1
  t=$(tail -1 "$w/t")
fi
echo "$id: demo $d0/$d1 ($(tail -1 "$w/d1" | cut -c1-150)); tests: $t"
for c in ${@:-$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")}; do
  out=$(VERIF_REPO="$w/repo" VERIF_SEED=${VERIF_SEED:-1} bash "$here/run.sh" "$c" 2>&1); rc=$?
  echo "   $c rc=$rc: $(echo "$out" | grep -v VIOLATION | tail -1 | cut -c1-220)"
done
