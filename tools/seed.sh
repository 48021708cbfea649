#!/bin/bash
# seed.sh ID: confirms a planted bug in a scratch copy of /repo: it applies, builds, passes the stable tests, and its
# demonstration passes without it and fails with it.
id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
git -C /repo archive HEAD | tar x -C "$w"
mkdir "$w.demo"; trap 'rm -rf "$w" "$w.demo"' EXIT
cp "$s"/* "$w.demo"/; rm -f "$w.demo"/*.diff "$w.demo"/meta.json
cd "$w" || exit 2
bash "$w.demo/demo.sh" > "$w.demo/out0" 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$id: DOES NOT BUILD"; exit 1; }
go test -vet=off -count=1 ./... > "$w.demo/tests" 2>&1; t=$?
bash "$w.demo/demo.sh" > "$w.demo/out1" 2>&1; b=$?
ok=BAD; [ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ] && ok=ok
echo "$id: $ok demo-clean=$a tests=$t demo-bug=$b"
[ $ok = ok ] || { tail -5 "$w.demo/out0"; grep -E '^(---|FAIL|panic)|Error' "$w.demo/tests" | head; tail -5 "$w.demo/out1"; exit 1; }
