#!/usr/bin/env python3
"""mkseed.py SPEC.json: write /verif/seeded/<id>/ from a list of {id, property, edits: [[file, old, new]...], needs, breaks, pkg, test (file beside), run}"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# fails (non-zero) when the property is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$PWD
if [ -f /opt/vp/env.sh ]; then source /opt/vp/env.sh; else
  export GOPATH=${GOPATH:-/root/go} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on
  export PATH=/opt/veriftools/go1.23.12/bin:$PATH
fi
T=$(mktemp -d) || exit 2
export TMPDIR=$T
cd "$W" || exit 2
R=""
for f in "$D"/demo*_test.go; do R="$R${R:+,}\\"$PWD/%(pkg)s/zz_$(basename "$f")\\":\\"$f\\""; done
printf '{"Replace":{%%s}}' "$R" > "$T/overlay.json"
go test -vet=off -count=1 -overlay "$T/overlay.json" -run '%(run)s' ./%(pkg)s
RC=$?
rm -rf "$T"
exit $RC
'''
def main(spec):
    for s in spec:
        t = tempfile.mkdtemp(prefix="mk-")
        repo = os.path.join(t, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            c = open(p).read()
            if c.count(old) != 1:
                print(s["id"], "edit does not match once:", f, c.count(old)); ok = False; break
            open(p, "w").write(c.replace(old, new))
        if ok:
            diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": s["pkg"], "run": s["run"]})
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            for i, f in enumerate([s["test"]] if isinstance(s["test"], str) else s["test"]):
                shutil.copy(f, os.path.join(d, "demo%s_test.go" % ("" if i == 0 else i)))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(t, ignore_errors=True)
main(json.load(open(sys.argv[1])) if sys.argv[1].endswith(".json") else eval(open(sys.argv[1]).read()))
