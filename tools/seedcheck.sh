#!/bin/bash
# seedcheck.sh ID [PROPERTY...]: runs the checks of the planted bug's property against /repo with the bug applied.
id=$1; shift; s=/verif/seeded/$id
p=${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply "$s/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for q in $p; do
  o=$(timeout 900 /verif/check.sh "$q" quick 2>&1); r=$?
  echo "$id $q exit=$r $(echo "$o" | grep -m1 VIOLATION) $(echo "$o" | grep -A3 -m1 VIOLATION | tail -2 | tr '\n' ' ' | cut -c1-200)"
done
