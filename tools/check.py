#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decide one property on /repo's working tree.

1. copies /repo (sources only) to a scratch directory,
2. builds govc from /verif/govc (if no build of the same sources is at hand),
3. runs govc: every function under contract for PROP, every contract those
   depend on and every lemma, from the copied sources,
4. runs the labelled bounded stand-ins of PROP (if any),
5. if an obligation failed: runs PROP's replay harness against the real code
   to look for a concrete failing input,
6. writes evidence/PROP.json and reports.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import BOUNDED, REPLAY, NOTES  # noqa: E402

GO123 = "/opt/veriftools/go1.23.12/bin"


def env_for(gobin=None):
    e = dict(os.environ)
    e.update(GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOWORK="off",
             GO111MODULE="on", GOPROXY="off", GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS="-mod=mod")
    if gobin:
        e["PATH"] = gobin + ":" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


def tree_hash(d):
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p) and (f.endswith(".go") or f in ("go.mod", "go.sum")):
            h.update(f.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build_govc(scratch=None):
    """builds the verifier; the build is kept in /verif/.build, keyed by its sources"""
    src = os.path.join(VERIF, "govc")
    key = tree_hash(src)
    bdir = os.path.join(VERIF, ".build")
    out = os.path.join(bdir, "govc-" + key)
    if os.path.exists(out):
        return out
    try:
        os.makedirs(bdir, exist_ok=True)
        lock = open(os.path.join(bdir, "lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
    except OSError:
        out = os.path.join(scratch, "govc")
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=src, env=env_for(), capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stdout + r.stderr)
        print("check.py: cannot build govc", file=sys.stderr)
        sys.exit(2)
    os.replace(tmp, out)
    return out


def copy_repo(dst):
    def ign(d, names):
        r = []
        for n in names:
            if n == ".git" or n.endswith("_test.go"):
                r.append(n)
        return r
    shutil.copytree(REPO, dst, ignore=ign, symlinks=True)
    for f in ("go.mod", "go.sum"):
        p = os.path.join(dst, f)
        if not os.path.exists(p):
            shutil.copy(os.path.join(VERIF, "mod", f), p)


def harness_files():
    base = os.path.join(VERIF, "harness")
    for root, _, files in os.walk(base):
        for f in sorted(files):
            if f.endswith(".go"):
                yield os.path.relpath(root, base), os.path.join(root, f)


def run_go_test(repo, entry, seed, tier, timeout):
    """entry: (package dir, test regexp, harness files, note)"""
    pkg, rx, files = entry["pkg"], entry["run"], entry["files"]
    placed = []
    dst = os.path.join(repo, pkg)
    os.makedirs(dst, exist_ok=True)
    for f in files:
        name = "zzverif_" + os.path.basename(f)
        p = os.path.join(dst, name)
        shutil.copy(os.path.join(VERIF, "harness", f), p)
        placed.append(p)
    e = env_for(GO123)
    e["VERIF_SEED"] = str(seed)
    e["VERIF_TIER"] = tier
    e["TMPDIR"] = os.path.join(os.path.dirname(repo), "tmp")
    os.makedirs(e["TMPDIR"], exist_ok=True)
    cmd = ["go", "test", "-vet=off", "-count=1", "-timeout", "%ds" % timeout, "-run", rx, "-v", "./" + pkg]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=repo, env=e, capture_output=True, text=True, timeout=timeout + 60, errors="replace")
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = "timeout\n", 124
    for p in placed:
        os.remove(p)
    status = "ok"
    if rc != 0:
        if "[build failed]" in out or "[setup failed]" in out or "cannot find package" in out:
            status = "build-failed"
        elif rc == 124 or "panic: test timed out" in out:
            status = "timeout"
        else:
            status = "failed"
    m = re.findall(r"CASES=(\d+)", out)
    return {"pkg": pkg, "run": rx, "status": status, "secs": round(time.time() - t, 2), "out": out,
            "cases": sum(map(int, m)), "what": entry.get("what", "")}


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known":
                    res.append(k)
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(prop, tier, seed, t0, scratch)
    finally:
        subprocess.run(["chmod", "-R", "u+w", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, t0, scratch):
    repo = os.path.join(scratch, "repo")
    copy_repo(repo)
    govc = build_govc(scratch)
    rep_file = os.path.join(scratch, "report.json")
    budget = "20s" if tier == "quick" else "90s"
    limit = "150s" if tier == "quick" else "600s"
    cmd = [govc, "-root", repo, "-specs", os.path.join(VERIF, "contracts"), "-prop", prop, "-json", rep_file,
           "-budget", budget, "-limit", limit, "-total", "540s" if tier == "quick" else "5400s"]
    r = subprocess.run(cmd, cwd=repo, env=env_for(GO123), capture_output=True, text=True, errors="replace",
                       timeout=800 if tier == "quick" else 6000)
    if not os.path.exists(rep_file):
        print(r.stdout[-3000:] + r.stderr[-3000:])
        print("check.py: the verifier could not load the tree (does it build?)", file=sys.stderr)
        return 2
    rep = json.load(open(rep_file))

    obls = failed = 0
    fails, back, assumptions = [], {}, set()
    fns, trusted, models, inlined = [], set(rep.get("trusted") or []), set(), set()
    for f in rep.get("functions") or []:
        n = 0
        for o in f.get("obligations") or []:
            obls += 1
            n += 1
            if o["status"] == "proved":
                back[o["solver"]] = back.get(o["solver"], 0) + 1
            else:
                failed += 1
                fails.append((f["key"], o))
        fns.append({"function": f["key"], "obligations": n, "failed": f["failed"], "paths": f["paths"], "secs": round(f["secs"], 2),
                    "contract": f.get("clauses") or [], "inlined": f.get("inlined") or []})
        assumptions.update(f.get("assumptions") or [])
        models.update(f.get("models") or [])
        inlined.update(f.get("inlined") or [])
    for o in rep.get("lemmas") or []:
        obls += 1
        if o["status"] == "proved":
            back[o["solver"]] = back.get(o["solver"], 0) + 1
        else:
            failed += 1
            fails.append(("lemma", o))
    missing = []
    for k in rep.get("missing") or []:
        nm = k.split(".")[-1].strip("()*")
        if nm[:1].isupper():
            obls += 1
            failed += 1
            fails.append((k, {"name": "the function under contract exists", "kind": "missing", "pos": "", "status": "failed", "solver": ""}))
        else:
            missing.append(k)

    bounded = []
    bfail = []
    for ent in BOUNDED.get(prop, []):
        b = run_go_test(repo, ent, seed, tier, 240 if tier == "quick" else 1800)
        bounded.append(b)
        if b["status"] in ("failed", "timeout"):
            bfail.append(b)
        elif b["status"] == "build-failed":
            # the code was restructured under the harness: no verdict from it
            print("WARNING: bounded stand-in %s %s does not build against this tree" % (b["pkg"], b["run"]))

    kf_hit, bad_b = [], []
    known = known_findings(prop)
    # known findings are demonstrated by harness tests named in the file
    for k in known:
        if "test" in k:
            b = run_go_test(repo, {"pkg": k["pkg"], "run": "^" + k["test"] + "$", "files": k["files"]}, seed, tier, 120)
            if b["status"] == "failed":
                kf_hit.append(k)
    bad_b = bfail

    replays = []
    concrete = any(b["status"] == "failed" for b in bad_b)
    if failed:
        for ent in REPLAY.get(prop, []):
            b = run_go_test(repo, ent, seed, tier, 150 if tier == "quick" else 900)
            replays.append(b)
            if b["status"] == "failed":
                concrete = True
                break
    elif tier == "thorough":
        for ent in REPLAY.get(prop, []):
            b = run_go_test(repo, ent, seed, tier, 900)
            replays.append(b)

    violated = failed > 0 or len(bad_b) > 0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obls, "discharged": obls - failed,
            "checker_cmd": "govc -root <scratch copy of /repo> -specs /verif/contracts -prop %s (z3-new, z3, cvc5)" % prop,
            "trusted_base": sorted(["govc (VC generator, /verif/govc)", "golang.org/x/tools/go/ssa", "z3 and cvc5"]
                                   + ["trusted contract: " + t for t in trusted] + ["built-in model: " + m for m in models]),
            "functions_under_contract": fns,
            "discharged_by": back,
            "solver_secs": rep.get("solver_secs"), "solver_queries": rep.get("solver_queries"),
            "inlined_callees": sorted(inlined),
            "contracts_without_function": missing,
            "lemmas": [o["name"] for o in rep.get("lemmas") or []],
            "bounded_standins": [{k: b[k] for k in ("pkg", "run", "status", "secs", "cases", "what")} for b in bounded],
            "replay_runs": [{k: b[k] for k in ("pkg", "run", "status", "secs", "cases")} for b in replays],
        },
        "assumptions": sorted(assumptions) + NOTES.get(prop, []) + NOTES.get("*", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violated else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kf_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d functions under contract, %d obligations, %d discharged (%s), %d bounded stand-ins, %.1fs" % (
        prop, len(fns), obls, obls - failed, ", ".join("%s %d" % x for x in sorted(back.items())), len(bounded), time.time() - t0))
    if not violated:
        return 0
    rp = os.path.join(VERIF, "evidence", prop + ".replay.txt")
    with open(rp, "w") as f:
        f.write("property %s violated\n\n" % prop)
        for k, o in fails:
            f.write("FAILED OBLIGATION in %s\n  %s: %s\n  at %s\n  path: %s\n  goal: %s\n  solver answer: %s\n\n" % (
                k, o.get("kind"), o.get("name"), o.get("pos"), " ; ".join(o.get("trace") or []), o.get("goal", ""), o.get("out", "")))
        for b in bad_b + [x for x in replays if x["status"] != "ok"]:
            f.write("REPLAY on the real code: go test -run '%s' ./%s -> %s\n%s\n\n" % (b["run"], b["pkg"], b["status"], b["out"][-6000:]))
        for k, o in fails[:3]:
            if o.get("query"):
                f.write("SMT QUERY for %s\n%s\n" % (o.get("name"), o["query"][:20000]))
    for k, o in fails[:12]:
        print("  failed obligation: %s: %s: %s at %s" % (k, o.get("kind"), o.get("name"), o.get("pos")))
    for b in bad_b + [x for x in replays if x["status"] == "failed"]:
        print("  replay %s %s: %s" % (b["pkg"], b["run"], b["status"]))
        for l in [l for l in b["out"].splitlines() if "REPLAY" in l or "panic:" in l][:5]:
            print("    " + l.strip()[:300])
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if concrete else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        print(build_govc(tempfile.gettempdir()))
        sys.exit(0)
    main()
