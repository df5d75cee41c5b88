#!/usr/bin/env python3
"""mkseed.py SPEC.py: write /verif/seeded/<id>/ from a description.

The spec defines: id, property, needs, breaks, edits [(file, old, new)],
pkg (where the demonstration test runs) and demo (its Go source)."""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
for sp in ns["seeds"]:
    w = tempfile.mkdtemp(prefix="/tmp/mkseed.")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in sp["edits"]:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %r occurs %d times in %s" % (sp["id"], old[:60], s.count(old), f))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    finally:
        shutil.rmtree(w)
    d = "/verif/seeded/" + sp["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo_src.txt", "w").write(sp["demo"])
    flags = sp.get("flags", "")
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# Runs a demonstration test inside %(pkg)s; fails when the property is broken.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/demo_src.txt" "$t/demo_test.go"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$t" > "$t/o.json"
TMPDIR="$t" timeout 250 go test -vet=off -count=1 %(flags)s -overlay "$t/o.json" -run '^TestDemo$' ./%(pkg)s
''' % {"pkg": sp["pkg"], "flags": flags})
    print(sp["id"], len(diff.splitlines()), "diff lines")
