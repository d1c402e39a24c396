#!/bin/bash
# seedcheck.sh ID [CHECK...]: confirm a planted bug in a scratch copy.
id="$1"; shift
v=/verif; s=$v/seeded/$id; w=/tmp/seed_$id
checks="$*"; [ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -d "$w" ] && find "$w" -delete
cp -a /repo "$w"
d=$(mktemp -d); for f in "$s"/*; do case "$f" in *.diff|*.patch|*meta.json) ;; *) cp -a "$f" "$d/";; esac; done
( cd "$w"; export PYTHONDONTWRITEBYTECODE=1
  timeout 300 bash "$d/demo.sh" >/tmp/seed_$id.clean 2>&1; echo "$id demo clean rc=$?"
  git apply "$s/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; exit; }
  timeout 300 bash "$d/demo.sh" >/tmp/seed_$id.bug 2>&1; echo "$id demo patched rc=$?"
  if [ -z "$NOTEST" ]; then
    t=$(mktemp); sed "s#cd /repo#cd $w#" /opt/vp/test.sh > $t; bash $t /tmp/seed_$id.json >/dev/null 2>&1
    echo "$id tests: $(python3 $v/tools/stable.py /tmp/seed_$id.json | tail -1 | cut -c1-300)"; fi
  for c in $checks; do VERIF_REPO=$w VERIF_SEED=${SEED:-1} timeout 900 $v/run.sh $c > /tmp/seed_$id.$c 2>&1; echo "$id check $c rc=$? $(grep -m1 -A1 '^VIOLATION' /tmp/seed_$id.$c | tr '\n' ' ' | cut -c1-200)"; done )
find "$w" "$d" -delete
