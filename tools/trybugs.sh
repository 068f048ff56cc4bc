#!/bin/bash
# Runs the check of each planted bug's property against it: tools/trybugs.sh [id ...]
# Works in a copy of /verif and /repo under $TB (default /tmp/tb), so it does not disturb the real ones.
# ALL=1 runs every check on each bug, not only that of its property.
V="$(cd "$(dirname "$0")/.." && pwd)"; T=${TB:-/tmp/tb}
mkdir -p "$T/verif"; rm -rf "$T/repo"; cp -a /repo "$T/repo"; git -C "$T/repo" checkout -q -- .
cd "$V"; cp -a bin mc rt certs known_findings.txt "$T/verif/"
sed -i "s|/repo|$T/repo|g" "$T/verif/bin/build" "$T/verif/mc/Cargo.toml" "$T/verif/bin/rustc-wrap"
for d in $(if [ $# -gt 0 ]; then printf "$V/seeded/%s\n" "$@"; else ls -d "$V"/seeded/*; fi); do
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C "$T/repo" apply "$d/patch.diff" || { echo "$d does not apply"; continue; }
  s=$(date +%s); other=
  [ -n "$ALL" ] && for c in $(seq -f C%02g 1 33); do
    [ $c = $p ] && continue
    timeout 900 "$T/verif/bin/check" $c quick >"$T/out" 2>&1 || other="$other $c"
  done
  timeout 900 "$T/verif/bin/check" $p ${TIER:-quick} >"$T/out" 2>&1; rc=$?
  git -C "$T/repo" checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$T/out"; then v=caught; else v="MISSED rc=$rc"; fi
  echo "$(basename $d) $p $v $(( $(date +%s) - s ))s${other:+ also$other} $(grep -A3 -m1 '^VIOLATION' "$T/out" | tail -n +2 | tr '\n' ' ' | cut -c1-150)"
done
