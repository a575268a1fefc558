#!/bin/bash
# usage: seed.sh ID [--nocheck]   Confirms a planted bug: patch applies, tests pass, the
# demonstration tells patched from unpatched, and which checks catch it (in a scratch copy
# for the tests and demonstration; /repo is patched only while the check runs).
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
t=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$t/repo"; mkdir "$t/d"
cp "$d"/* "$t/d/"; rm -f "$t/d/patch.diff" "$t/d/meta.json"
# The venv imports /repo, so demos and tests run against /repo itself.
(cd /repo && bash "$t/d/demo.sh" >"$t/o1" 2>&1); a=$?
git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; rm -rf "$t"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
(cd /repo && bash "$t/d/demo.sh" >"$t/o2" 2>&1); b=$?
tests=$(bash /tmp/w/t.sh 2>&1 | tail -1)
[ $a = 0 ] && [ $b != 0 ] || { echo "$id: demo $a/$b"; tail -3 "$t/o1" "$t/o2"; }
case "$tests" in *"missing: []"*) ;; *) echo "$id: TESTS $tests";; esac
shift
checks=${*:-$prop}
for c in $checks; do
  out=$(cd /verif && timeout 900 bash check.sh $c 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" <<<"$out"; then r=caught; else r="MISSED(rc=$rc)"; fi
  echo "$id demo=$a/$b [$prop] $c: $r $(grep -A1 ^VIOLATION <<<"$out" | sed -n 2p)"
done
rm -rf "$t"
