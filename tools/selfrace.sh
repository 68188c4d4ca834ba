#!/bin/bash
# development aid: sym.Together finds the races of harness/selfrace and no others
cd "$(dirname "$0")/.." || exit 2
grep -o 'func H[A-Za-z]*' harness/selfrace/selfrace.go | cut -c6- | while read -r h; do
  out=$(./check selfrace quick -only "$h" 2>&1); rc=$?
  case "$h" in HRacy*) want=1;; *) want=0;; esac
  [ $rc = $want ] && echo "ok   $h $rc" || { echo "FAIL $h $rc"; echo "$out" | tail -5; }
done
