#!/bin/bash
# Usage: seedtest.sh ID [CHECK...]: verifies a planted bug in a scratch copy of
# /repo (demo on the clean and the changed tree, the repository's tests), then
# runs the checks on the changed copy.
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
d="$here/seeded/$id"
w="$(mktemp -d /tmp/seed.XXXXXX)"
trap 'rm -rf -- "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w"
dd="$(mktemp -d /tmp/seedd.XXXXXX)"; trap 'rm -rf -- "$w" "$dd"' EXIT
cp -r "$d/." "$dd"; rm -f "$dd/patch.diff" "$dd/meta.json"
. /opt/vp/env.sh
cd "$w"
PYTHONPATH="$w" timeout 300 bash "$dd/demo.sh" >"$w/.demo0" 2>&1; a=$?
git -C "$w" init -q . >/dev/null 2>&1
git -C "$w" apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
PYTHONPATH="$w" timeout 300 bash "$dd/demo.sh" >"$w/.demo1" 2>&1; b=$?
[ $a = 0 ] || tail -5 "$w/.demo0"
[ $b != 0 ] && tail -1 "$w/.demo1"
if [ -z "$NOTEST" ]; then
t="$(PYTHONPATH="$w" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 --disable-warnings tests 2>&1 | tail -1)"
fi
echo "$id: demo clean=$a changed=$b tests: $t"
prop="$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")"
cd /
for c in "${@:-$prop}"; do
  [ "$c" = none ] && continue
  VSIM_REPO="$w" bash "$here/run.sh" "$c" --no-evidence --no-minimise > "$w/.check" 2>&1; r=$?
  echo "$id: $c exit $r  $(grep -B1 -m1 '^VIOLATION' "$w/.check" | head -1 | cut -c1-300)"
  [ $r = 2 ] && tail -15 "$w/.check"
done
