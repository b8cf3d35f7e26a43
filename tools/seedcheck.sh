#!/bin/bash
# seedcheck.sh ID...: confirms planted changes in a scratch copy, then runs their checks against /repo.
# -n as the first argument: without the checks
run=1; [ "$1" = -n ] && { run=; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/seedcheck.XXXXXX)
  cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( cd "$w/repo"
    bash "$w/demo/demo.sh" >"$w/out" 2>&1 || { echo "$id: demo fails without the change"; tail -20 "$w/out"; }
    git apply "$d/patch.diff" || echo "$id: patch does not apply"
    go build ./... || echo "$id: does not build"
    go vet . ./internal/cascadia >/dev/null 2>&1 || echo "$id: vet complains"
    go test ./... 2>&1 | grep -v "no test files" > "$w/t"; grep -q FAIL "$w/t" && { echo "$id: tests fail"; grep -- "--- FAIL" "$w/t" | head; }
    bash "$w/demo/demo.sh" >"$w/out" 2>&1 && echo "$id: demo passes with the change"
  )
  find "$w" -delete
  [ -n "$run" ] || { echo "$id ($prop) confirmed"; continue; }
  git -C /repo apply "$d/patch.diff"
  cd /verif; s=$(date +%s); ./check.sh $prop quick > /tmp/seedcheck.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id ($prop): rc=$rc $(( $(date +%s)-s )) s: $(grep -m1 VIOLATION /tmp/seedcheck.out)"
  [ $rc = 1 ] || tail -3 /tmp/seedcheck.out
done
