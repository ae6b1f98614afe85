#!/usr/bin/env python3
"""Development tool (no check uses it): runs the checks, scaled down, against every small change that tools/mutate lists.

  mutants.py MUTS.jsonl OUT.jsonl [workers] [scale]

/repo isn't touched: it runs on copies of /repo and the harness, and the changed file is put in with go's -overlay.
"""
import json, os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
muts, out = sys.argv[1], sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 6
SCALE = sys.argv[4] if len(sys.argv) > 4 else "3"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = tempfile.mkdtemp(prefix="mutbase.")
H, R = B + "/harness", B + "/repo"
shutil.copytree(V + "/harness", H); shutil.copytree("/repo", R)
g = open(H + "/go.mod").read()
open(H + "/go.mod", "w").write(g.replace("=> /repo", "=> " + R))
PROPS = os.environ.get("PROPS", "P13 P10 P06 P08 P05 P07 P15 P12 P04 P02 P03 P01 P16 P09 P11 P14 P17 P19 P20 P21 P22 P18").split()
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", HARNESS_SHRINK="1ms")
def run(cmd, cwd, t):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def one(m):
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        src = open(R + "/" + m["file"], "rb").read()
        open(d + "/f.go", "wb").write(src[:m["from"]] + m["text"].encode() + src[m["to"]:])
        json.dump({"Replace": {R + "/" + m["file"]: d + "/f.go"}}, open(d + "/o.json", "w"))
        shutil.copy(H + "/go.mod", d); shutil.copy(H + "/go.sum", d)
        c, o = run(["go", "build", "-p", "2", "-overlay", d + "/o.json", "-modfile", d + "/go.mod", "-o", d + "/h", "."], H, 300)
        if c: return dict(m, res="nocompile")
        shutil.copy(V + "/known-findings.txt", d)
        other = []
        for p in PROPS:
            s = d + "/s"; os.mkdir(s)
            c, o = run([d + "/h", "check", "-prop", p, "-scratch", s, "-verif", d, "-scale", SCALE], d, 150)
            shutil.rmtree(s, ignore_errors=True)
            if c == 1: return dict(m, res="killed", by=p, other=other)
            if c != 0: other.append((p, c, o[-300:]))
        e2 = ["go", "test", "-vet=off", "-overlay", d + "/o.json", "-timeout", "30s", "-p", "2", "./..."]
        env2 = dict(env, GOFLAGS="-mod=readonly")
        try:
            r = subprocess.run(e2, cwd=R, env=env2, capture_output=True, text=True, errors="replace", timeout=400)
            c = r.returncode
        except subprocess.TimeoutExpired: c = 124
        if c: return dict(m, res="testkilled")
        return dict(m, res="SURVIVED", other=other)
    except Exception as e:
        return dict(m, res="error", msg=repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)
done = set()
key = lambda m: (m["file"], m["from"], m["to"], m["text"])
if os.path.exists(out):
    for l in open(out): done.add(key(json.loads(l)))
M = [json.loads(l) for l in open(muts)]
M = [m for m in M if key(m) not in done]
with cf.ThreadPoolExecutor(W) as ex, open(out, "a") as f:
    for x in cf.as_completed([ex.submit(one, m) for m in M]):
        r = x.result()
        f.write(json.dumps(r) + "\n"); f.flush()
shutil.rmtree(B, ignore_errors=True)
