#!/bin/bash
# usage: seed.sh NAME   confirm seeded/NAME in a scratch copy, then run its property's check on it
# (VERIFS=all: also every other check)
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$1
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$W/repo"
cd "$W/repo" || exit 2
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
run_demo() { mkdir -p "$W/d"; cp "$S"/* "$W/d/"; rm -f "$W"/d/*.diff "$W/d/meta.json"
  sed "s#/repo#$W/repo#g" -i "$W"/d/*; (cd "$W/repo" && timeout 300 bash "$W/d/demo.sh" >"$W/demo.log" 2>&1); echo $?; }
a=$(run_demo)
git apply "$S/patch.diff" || { echo "$1 DOES NOT APPLY"; rm -rf "$W"; exit 1; }
b=$(run_demo)
if [ -z "$NOTEST" ]; then
t=$(cd "$W/repo" && TQDM_DISABLE=1 timeout 300 /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider pyslope/tests 2>&1 | tail -1)
fi
r=$(cd "$V" && VERIF_REPO=$W/repo timeout 900 ./run.sh "$P" quick 2>&1 | grep -E -A1 "VIOLATION|HARNESS|quick:" | cut -c1-300)
echo "== $1 ($P) demo clean=$a patched=$b tests: $t"
echo "$r"
rm -rf "$W"
