#!/bin/bash
# tools/trybugs.sh ID...   run the check of each planted bug's property against it (in scratch copies)
HERE="$(cd "$(dirname "$0")/.." && pwd)"
try() {
  id=$1; d="$HERE/seeded/$id"
  prop=${2:-$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  t=$(mktemp -d /tmp/trybug_XXXXXX)
  cp -a /repo "$t/repo"; mkdir "$t/verif"
  cp -a "$HERE"/{bin,harness,spec,known-findings.txt,properties.jsonl} "$t/verif/"
  if git -C "$t/repo" apply "$d/patch.diff"; then
    s=$(date +%s)
    (cd "$t/verif" && VERIF_REPO="$t/repo" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER=quick bin/check "$prop") > "/tmp/try_$id.log" 2>&1
    rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "/tmp/try_$id.log"; then v=CAUGHT; else v="MISSED(rc=$rc)"; fi
    echo "$id $prop $v $(( $(date +%s) - s ))s: $(grep -m1 clause "/tmp/try_$id.log" | cut -c1-140)"
  else echo "$id does not apply"; fi
  rm -rf -- "$t"
}
for id in "$@"; do try "${id%%:*}" "$([ "${id#*:}" != "$id" ] && echo "${id#*:}")"; done
