#!/usr/bin/env python3
"""mkseed.py DIR: create /verif/seeded/<id>/ from a description file.

The description is a python file defining id, property, pkg, edits=[(file, old, new)], demo (go test source with
TestVPDemo), needs, breaks."""
import sys, os, subprocess, shutil, tempfile, json
d = {}
exec(open(sys.argv[1]).read(), d)
out = "/verif/seeded/" + d["id"]
os.makedirs(out, exist_ok=True)
w = tempfile.mkdtemp(prefix="mk", dir="/tmp")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, a, b, *n in d["edits"]:
        p = w + "/r/" + f
        s = open(p).read()
        assert s.count(a) == (n[0] if n else 1), (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    subprocess.check_call(["gofmt", "-l"] + [w + "/r/" + f for f, *_ in d["edits"]])
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    open(out + "/patch.diff", "w").write(diff)
    # changed lines must be original ones
finally:
    shutil.rmtree(w)
pkg = d["pkg"]
race = "-race " if d.get("race") else ""
open(out + "/demo_test.go", "w").write(d["demo"].lstrip("\n"))
open(out + "/demo.sh", "w").write("""#!/bin/bash
# Exits 0 when the property holds for the history in demo_test.go. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
cp go.mod "$d/rankdb.mod" && cp go.sum "$d/rankdb.sum" || exit 1
export GOFLAGS="-mod=mod -modfile=$d/rankdb.mod" TMPDIR=$d
cat > "$d/o.json" <<E
{"Replace":{"$PWD/%s":"$here/demo_test.go"}}
E
timeout 280 go test %s-vet=off -count=1 -timeout 250s -overlay "$d/o.json" -run '^TestVPDemo$' ./%s
""" % (os.path.join(pkg, "vp_demo_test.go"), race, pkg))
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
