#!/usr/bin/env python3
"""Development aid: seedtest.py [-d] [-u] [-c CHECK] ID... | all
Per planted change, in a scratch clone of /repo: (-d) demo on the clean tree, apply, tokenizer tests, demo; (-u) the whole
upstream suite with the stand-ins of shim/; then the property's check (or CHECK); revert."""
import subprocess, sys, os, json, time
V = "/verif"; R = "/tmp/sw"
args = sys.argv[1:]; demo = "-d" in args; up = "-u" in args; other = None
if "-c" in args:
    other = args[args.index("-c") + 1]; args.remove("-c"); args.remove(other)
ids = [a for a in args if a not in ("-d", "-u")]
if ids == ["all"]: ids = sorted(os.listdir(f"{V}/seeded"))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(R): sh(f"git clone -q /repo {R}")
assert sh(f"git -C {R} rev-parse HEAD").stdout == sh("git -C /repo rev-parse HEAD").stdout, "stale clone"
assert not sh(f"git -C {R} status --porcelain -uno").stdout
env = dict(os.environ, VERIF_REPO=R)
for i in ids:
    d = f"{V}/seeded/{i}"
    if not os.path.exists(d): continue
    m = json.load(open(f"{d}/meta.json")); p = other or m["property"]; out = [i, p]
    if demo:
        r = sh(f"bash {d}/demo.sh", cwd=R); out.append(f"clean-demo={r.returncode}")
        if r.returncode: print(r.stdout[-1500:])
    a = sh(f"git -C {R} apply {d}/patch.diff")
    try:
        if a.returncode: out.append("PATCH DOES NOT APPLY"); continue
        if demo:
            r = sh(f"bash {d}/demo.sh", cwd=R); out.append(f"bug-demo={r.returncode}")
            if r.returncode in (0, 3): print(r.stdout[-1500:])
        if up:
            r = sh(f"bash {V}/tools/upstream.sh", env=env); out.append(f"upstream-rc={r.returncode} " + (r.stdout.strip().splitlines() or [""])[-1][:60])
        t0 = time.time(); r = sh(f"bin/check {p}", cwd=V, env=env)
        caught = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
        out.append(f"check={'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode} {time.time()-t0:.0f}s")
        if r.returncode not in (0, 1): print(r.stdout[-1500:])
        if caught: out.append([l for l in r.stdout.splitlines() if "VIOLATION" in l][0][:160])
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
        print(*out, flush=True)
