#!/bin/bash
# seed_verify.sh ID: in a scratch copy of /repo, confirm that the planted change
# of /verif/seeded/ID builds, passes the tests and is shown by its demo.
id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/seedw.XXXXXX)
trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
cp -a /repo "$w/repo"; cp -a "$s" "$w/laid"; rm -f "$w/laid/patch.diff" "$w/laid/meta.json"
cd "$w/repo" || exit 3
bash "$w/laid/demo.sh" > "$w/d0" 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 3; }
go build ./... > "$w/b" 2>&1; b=$?
go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed 's|^|./|') > "$w/v" 2>&1
bash "$w/laid/demo.sh" > "$w/d1" 2>&1; c=$?
t=$(go test ./... 2>&1 | grep -v unixcompat | grep -c "^--- FAIL\|^FAIL.*github")
echo "$id: demo clean=$a build=$b demo patched=$c failing test packages=$t"
[ $a = 0 ] || tail -5 "$w/d0"
[ $c != 0 ] && tail -${V:-3} "$w/d1"
[ $b = 0 ] || tail -5 "$w/b"
