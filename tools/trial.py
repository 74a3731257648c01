#!/usr/bin/env python3
"""Tries hand-written changes through an overlay (neither /repo nor /verif change): the quick check of the property, then
the repository's tests.  usage: trial.py FILE.py [id ...]; FILE.py defines T = [(id, property, [(file, old, new), ...]), ...]
An old text may be (text, n) for its n-th occurrence."""
import json, os, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=mod", CGO_ENABLED="1")
g = {}
exec(open(sys.argv[1]).read(), g)
tmp = tempfile.mkdtemp(prefix="trial")
EV = tmp + "/root"
os.makedirs(EV + "/evidence")
for x in os.listdir(ROOT):
    if x not in ("evidence", ".git"): os.symlink(ROOT + "/" + x, EV + "/" + x)
for id, prop, edits in g["T"]:
    if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
    files = {}
    bad = None
    for f, old, new in edits:
        s = files.get(f) or open("/repo/" + f).read()
        n = None
        if isinstance(old, tuple): old, n = old
        if n is None:
            if s.count(old) != 1: bad = (f, old, s.count(old)); break
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            if len(parts) <= n: bad = (f, old, len(parts)); break
            s = old.join(parts[:n]) + new + old.join(parts[n:])
        files[f] = s
    if bad: print(id, "NOMATCH", bad, flush=True); continue
    rep = {}
    for f, s in files.items():
        p = tmp + "/" + f.replace("/", "_")
        open(p, "w").write(s); rep["/repo/" + f] = p
    ov = tmp + "/ov.json"
    json.dump({"Replace": rep}, open(ov, "w"))
    res = []
    for c in prop.split():
        b = tempfile.mkdtemp(dir=tmp)
        subprocess.call(["cp", ROOT + "/harness/go.mod", ROOT + "/harness/go.sum", b])
        if subprocess.call(["go", "build", "-modfile=" + b + "/go.mod", "-overlay=" + ov, "-o", b + "/check", "./" + c.lower()], cwd=ROOT + "/harness", env=env):
            res.append(c + ":nobuild"); break
        t = time.time()
        try:
            p = subprocess.run([b + "/check", "quick"], env=dict(env, VH_ROOT=EV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
            o = p.stdout.decode(errors="replace")
            l = [x for x in o.splitlines() if x.startswith("FAIL")]
            res.append("%s:%s %s" % (c, {0: "MISSED", 1: "caught"}.get(p.returncode, "rc%d" % p.returncode), (l[0][:140] if l else "")))
        except subprocess.TimeoutExpired:
            res.append(c + ":timeout")
        subprocess.call(["rm", "-rf", b])
    p = subprocess.run(["go", "test", "./ring", "./rlwe", "./frlwe", "./utils"], cwd="/repo", env=dict(env, GOFLAGS="-mod=mod -modfile=/opt/vp/fast-ksw.mod -overlay=" + ov), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(id, "| tests", "pass" if p.returncode == 0 else "FAIL", "|", "; ".join(res), flush=True)
subprocess.call(["rm", "-rf", tmp])
