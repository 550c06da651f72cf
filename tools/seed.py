#!/usr/bin/env python3
"""seed.py ID [nocheck]: confirm /verif/seeded/ID in a scratch copy of /repo: the
patch applies, builds, passes the stable tests; demo.sh passes without and
fails with it; and report what the property's check says about it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace", env=env, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def main(sid, check=True):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(t, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        sd = os.path.join(t, "sd")
        shutil.copytree(d, sd)
        base = "source /opt/vp/env.sh 2>/dev/null; cd %s; " % repo
        rc0, o0 = sh("bash -c 'cd %s && bash %s/demo.sh'" % (repo, sd), repo)
        rc, o = sh("git apply %s/patch.diff" % d, repo)
        if rc:
            return print(sid, "DOES NOT APPLY", o)
        rc, o = sh("bash -c 'source /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... '", repo)
        tests = "tests pass" if rc == 0 else "TESTS FAIL:\n" + "\n".join(l for l in o.splitlines() if "FAIL" in l or "panic" in l or ".go:" in l)[:1500]
        rc1, o1 = sh("bash -c 'cd %s && bash %s/demo.sh'" % (repo, sd), repo)
        print(sid, "| demo clean rc=%d patched rc=%d |" % (rc0, rc1), tests)
        if rc0 != 0:
            print(o0[-1500:])
        if rc1 == 0:
            print("DEMO DOES NOT FAIL", o1[-800:])
        if check:
            e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
            rc, o = sh("python3 %s/tools/check.py %s" % (V, meta["property"]), V, e)
            print("   check rc=%d" % rc)
            print("\n".join("     " + l[:260] for l in o.splitlines()[-14:]))
    finally:
        shutil.rmtree(t, ignore_errors=True)

ids = [a for a in sys.argv[1:] if a != "nocheck"]
if ids == ["all"]:
    ids = sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    main(i, "nocheck" not in sys.argv)
