#!/usr/bin/env python3
"""Make planted bugs: mkseed.py SPEC.py ... Each spec defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], pkg, demo)].
Checks in a scratch copy that the bug builds, passes the stable tests, that the demonstration separates it, and that only original lines change."""
import sys,os,json,subprocess,shutil,runpy
ROOT="/verif"; BASE=subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD",shell=True,text=True).split()[-1]
S="/tmp/mkseed"
DEMO='''#!/bin/bash
# Fails when the planted change is present.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/go.mod"; cp "$here/demo.sum" "$tmp/go.sum"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -modfile=$tmp/go.mod"
printf '{"Replace":{"%%s/%(pkg)s/zz_seed_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/o.json"
go test -vet=off -count=1 -timeout 240s%(flags)s -overlay "$tmp/o.json" -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,executable="/bin/bash",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def one(b, full=True):
    d=f"{ROOT}/seeded/{b['id']}"
    if os.path.isdir(S): shutil.rmtree(S)
    shutil.copytree("/repo",S,symlinks=True)
    sh("git checkout -q -- . && git clean -fdq",cwd=S)
    for f,old,new in b['edits']:
        p=f"{S}/{f}"; s=open(p).read()
        n=b.get('count',1)
        assert s.count(old)==n,(b['id'],f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=sh("git diff",cwd=S).stdout
    base={}
    cur=None
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=l[6:]; base[cur]=set(sh(f"git show {BASE}:{cur}",cwd=S).stdout.splitlines())
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:] not in base[cur]: return f"NOT ORIGINAL: {l}"
    env=open("/opt/vp/env.sh").read().replace("/repo",S).replace("/opt/vp/fast-ksw","/tmp/mkseed_mod")
    shutil.copy("/opt/vp/fast-ksw.sum","/tmp/mkseed_mod.sum"); open("/tmp/mkseed_env.sh","w").write(env)
    fm=sh(". /tmp/mkseed_env.sh; gofmt -l $(git diff --name-only); go build ./... && go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed 's#^#./#') 2>&1 | grep -v unkeyed | grep -v '^#'",cwd=S)
    bl=sh(". /tmp/mkseed_env.sh; go build ./...",cwd=S)
    if bl.returncode: return "BUILD: "+bl.stdout
    os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo_test.go","w").write(b['demo'].strip()+"\n")
    shutil.copy("/opt/vp/fast-ksw.sum",d+"/demo.sum")
    open(d+"/demo.sh","w").write(DEMO%{'pkg':b['pkg'],'flags':b.get('flags','')}); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+"/meta.json","w"),indent=1)
    clean=sh(f"bash {d}/demo.sh",cwd="/repo"); bad=sh(f"bash {d}/demo.sh",cwd=S)
    m=f"fmt/vet={fm.stdout.strip()[:200]!r} clean={clean.returncode} planted={bad.returncode}"
    if clean.returncode: m+="\nCLEAN OUTPUT: "+clean.stdout[-1500:]
    if bad.returncode==0: m+="\nPLANTED PASSES"
    elif 'TestSeedDemo' not in bad.stdout and 'panic' not in bad.stdout: m+="\n?? "+bad.stdout[-800:]
    if clean.returncode or bad.returncode==0: return "BAD "+m
    if full:
        t=sh("""sed "s#/opt/vp/env.sh#/tmp/mkseed_env.sh#;s#/repo#%s#g" /opt/vp/test.sh > /tmp/mkseed_test.sh; sed -i 's#/opt/vp/logs#/tmp/mkseed_logs#g' /tmp/mkseed_test.sh; bash /tmp/mkseed_test.sh /tmp/mkseed_out.json"""%S,cwd=S)
        m+=" tests: "+t.stdout.strip()[-300:]
        try:
            o=json.load(open('/tmp/mkseed_out.json')); ba=json.load(open('/opt/vp/BASELINE.json'))
            st=set(ba.get('stable',ba.get('passed',[])) if isinstance(ba,dict) else ba)
            miss=st-set(o['passed'])
            m+=f" stable={len(st)} missing={sorted(miss)[:5]}"
            if miss: return "BAD "+m
        except Exception as e: return "BAD "+m+repr(e)
    return "OK "+m
if __name__=="__main__":
    full="--quick" not in sys.argv
    only=[a[1:] for a in sys.argv if a.startswith("@")]
    for f in sys.argv[1:]:
        if f.startswith("-") or f.startswith("@"): continue
        for b in runpy.run_path(f)["BUGS"]:
            if only and b['id'] not in only: continue
            try: r=one(b,full)
            except AssertionError as e: r="BAD edit "+repr(e)
            print(b['id'],r,flush=True)
            if not r.startswith("OK"):
                pass
    shutil.rmtree(S,ignore_errors=True)
