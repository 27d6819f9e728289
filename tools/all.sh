#!/bin/bash
# Run every claimed check (arguments are passed on) and list results.
cd "$(dirname "$0")/.."
for f in pbt/props/p[0-9]*.py; do
  id=$(basename "$f" .py | tr p P)
  s=$(date +%s)
  out=$(./check "$id" "$@" 2>&1); rc=$?
  echo "$id rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | tail -1)"
done
