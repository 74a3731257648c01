#!/usr/bin/env python3
"""Mutation sweep: small syntactic changes of the library, built through an overlay (neither /repo nor /verif change),
against the quick checks.  Reports the changes that no check notices.
usage: mutate.py OUT.jsonl PER_FILE SEED [file ...]"""
import json, os, random, subprocess, sys, tempfile, hashlib, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "utils/utils.go": "C09 C07 C01", "utils/buffer.go": "C09 C08", "utils/prng.go": "C09 C07 C21",
 "ring/complex128.go": "C14 C16", "ring/conjugate_invariant.go": "C06 C03", "ring/int.go": "C05 C12 C02 C14", "ring/modular_reduction.go": "C01",
 "ring/primes.go": "C12 C01", "ring/ring.go": "C12 C02 C08 C01", "ring/ring_automorphism.go": "C06 C11", "ring/ring_basis_extension.go": "C04 C11 C16 C13",
 "ring/ring_ntt.go": "C03", "ring/ring_ntt_interface.go": "C03 C16", "ring/ring_operations.go": "C02 C01", "ring/ring_poly.go": "C19 C08 C02 C12",
 "ring/ring_sampler.go": "C07", "ring/ring_sampler_gaussian.go": "C07", "ring/ring_sampler_ternary.go": "C07", "ring/ring_sampler_uniform.go": "C07",
 "ring/ring_scaling.go": "C05", "ring/ring_vector_ops.go": "C02 C05 C04 C03 C11 C15", "ring/utils.go": "C12 C01",
 "rlwe/decryptor.go": "C10 C16 C20", "rlwe/elements.go": "C19 C06 C08 C10 C16 C15", "rlwe/encryptor.go": "C10 C16 C20 C21", "rlwe/keygen.go": "C11 C10 C12 C20 C21", "rlwe/keys.go": "C19 C08 C11 C12",
 "rlwe/keyswitch.go": "C11 C16 C15 C20", "rlwe/marshaler.go": "C08", "rlwe/params.go": "C12 C08", "rlwe/ring_qp.go": "C02 C19 C11 C10 C13 C07",
 "ckks/ciphertext.go": "C19 C15 C08 C16", "ckks/ckks_vector_ops.go": "C14 C16", "ckks/decryptor.go": "C10 C16 C15", "ckks/encoder.go": "C14 C16 C20",
 "ckks/encryptor.go": "C10 C16 C20", "ckks/evaluator.go": "C15 C16 C20", "ckks/keys.go": "C19 C11 C15", "ckks/params.go": "C12 C08 C14", "ckks/plaintext.go": "C19 C14 C15 C08",
 "ckks/utils.go": "C14 C15 C09", "frlwe/keygen.go": "C13 C18", "frlwe/keys.go": "C19 C13", "frlwe/keyswitch.go": "C13 C18 C20", "frlwe/params.go": "C13 C12 C18",
 "fckks/decryptor.go": "C18", "fckks/elements.go": "C19 C18", "fckks/encryptor.go": "C18", "fckks/evaluator.go": "C18 C20", "fckks/keygen.go": "C18", "fckks/params.go": "C18 C12",
}
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=mod", CGO_ENABLED="1")
out, per, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
files = sys.argv[4:] or sorted(MAP)
done = set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)["key"])
tmp = tempfile.mkdtemp(prefix="mut")
subprocess.check_call(["go", "build", "-o", tmp + "/mutgen", "./tools/mutgen/main.go"], cwd=ROOT, env=dict(env, GO111MODULE="off"))
# MUTGEN=t: exchange identifiers of the same type, MUTGEN=c: skip statements under a condition; else operators and constants
KIND = {"1": "t"}.get(os.environ.get("MUTGEN", ""), os.environ.get("MUTGEN", ""))
if KIND: subprocess.check_call(["go", "build", "-o", tmp + "/mutgen" + KIND, "./tools/mutgen%s/main.go" % KIND], cwd=ROOT, env=dict(env, GO111MODULE="off"))
work = []
for f in files:
    if not KIND:
        ms = [json.loads(l) for l in subprocess.check_output([tmp + "/mutgen", "/repo/" + f]).splitlines()]
    else:
        ms = [json.loads(l) for l in subprocess.check_output([tmp + "/mutgen" + KIND, "/repo/" + f], cwd="/repo", env=dict(env, GOFLAGS="-mod=mod -modfile=/opt/vp/fast-ksw.mod")).splitlines()]
    random.Random(seed + f).shuffle(ms)
    if KIND:
        seen = set()
        ms = [m for m in ms if not (m["off"] in seen or seen.add(m["off"]))]
    work.append((f, ms))
EV = tmp + "/root"
os.makedirs(EV)
for x in os.listdir(ROOT):
    if x not in ("evidence", ".git"): os.symlink(ROOT + "/" + x, EV + "/" + x)
os.makedirs(EV + "/evidence")
order = []
for k in range(per):
    for f, ms in work:
        if k < len(ms): order.append((f, ms[k]))
def log(r):
    open(out, "a").write(json.dumps(r) + "\n")
for f, m in order:
    key = hashlib.md5(json.dumps(m, sort_keys=True).encode()).hexdigest()[:10]
    if key in done: continue
    done.add(key)
    src = open("/repo/" + f, "rb").read()
    mf = tmp + "/mut.go"
    open(mf, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
    ov = tmp + "/ov.json"
    json.dump({"Replace": {"/repo/" + f: mf}}, open(ov, "w"))
    e = dict(env, GOFLAGS="-mod=mod -overlay=" + ov, VH_HANG="60", VH_FAILFAST="1", VERIF_SEED="1")
    r = {"key": key, "file": f, "desc": m["desc"], "new": m["new"]}
    if subprocess.call(["go", "build", "./..."], cwd="/repo", env=dict(e, GOFLAGS="-mod=mod -modfile=/opt/vp/fast-ksw.mod -overlay=" + ov), stderr=subprocess.DEVNULL):
        continue
    t = time.time()
    r["res"] = "survived"
    for c in MAP[f].split():
        b = tempfile.mkdtemp(dir=tmp)
        subprocess.call(["cp", ROOT + "/harness/go.mod", ROOT + "/harness/go.sum", b])
        if subprocess.call(["go", "build", "-modfile=" + b + "/go.mod", "-o", b + "/check", "./" + c.lower()], cwd=ROOT + "/harness", env=e):
            r["res"] = "nobuild"; break
        try:
            p = subprocess.run([b + "/check", "quick"], env=dict(e, VH_ROOT=EV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
            if p.returncode == 1: r["res"] = "caught"; r["by"] = c; r["sig"] = p.stdout.decode(errors="replace")[:250]
            elif p.returncode != 0: r["res"] = "error"; r["by"] = c; r["sig"] = p.stdout.decode(errors="replace")[-300:]
        except subprocess.TimeoutExpired:
            r["res"] = "error"; r["by"] = c; r["sig"] = "timeout"
        subprocess.call(["rm", "-rf", b])
        if r["res"] != "survived": break
    if r["res"] == "survived":
        p = subprocess.run(["go", "test", "./ring", "./rlwe", "./frlwe", "./utils"], cwd="/repo", env=dict(e, GOFLAGS="-mod=mod -modfile=/opt/vp/fast-ksw.mod -overlay=" + ov), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r["tests"] = "pass" if p.returncode == 0 else "fail"
    r["t"] = round(time.time() - t, 1)
    log(r)
subprocess.call(["rm", "-rf", tmp])
