#!/bin/bash
# Runs the check of every planted bug (or those named) against a scratch copy of /repo with the bug applied.
cd /verif || exit 1
for d in $(ls seeded); do
  if [ $# -gt 0 ] && ! printf '%s\n' "$@" | grep -qx "$d"; then continue; fi
  t=$(mktemp -d /tmp/try_XXXXXX)
  cp -a /repo "$t/repo"
  if ! git -C "$t/repo" apply "/verif/seeded/$d/patch.diff"; then echo "$d: patch does not apply"; rm -rf "$t"; continue; fi
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  s=$(date +%s)
  R="$t/repo" PYVC_EVID="$t/ev" ./check "$p" > "$t/out" 2> "$t/err"; rc=$?
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 ^VIOLATION "$t/out" | sed 's/replay=[^ ]*//') | $(grep -m1 '^  ' "$t/out" | cut -c1-150) $(tail -1 "$t/err" | cut -c1-200)"
  rm -rf "$t"
done
