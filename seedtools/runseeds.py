#!/usr/bin/env python3
"""Runs the check of each planted change (or of all its --props) on a scratch copy: runseeds.py [id...] [--all]"""
import sys, os, json, subprocess, concurrent.futures as cf
S = "/verif/seeded"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
allp = "--all" in sys.argv
props = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
def one(i):
    d = f"/tmp/sr/{i}"
    subprocess.run(["rm", "-rf", d]); os.makedirs("/tmp/sr", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    if os.path.exists("/repo/Cargo.lock"): subprocess.run(["cp", "/repo/Cargo.lock", d])
    r = subprocess.run(["git", "-C", d, "apply", f"{S}/{i}/patch.diff"], capture_output=True, text=True)
    if r.returncode: return i, "patch does not apply " + r.stderr
    m = json.load(open(f"{S}/{i}/meta.json"))["property"]
    res = []
    for p in (props if allp else [m]):
        if p not in props: res.append(f"{p}: not claimed"); continue
        env = dict(os.environ, ZV_REPO=d, ZV_EVID=f"/tmp/sr/ev-{i}", VERIF_SEED="1", VERIF_TIER="quick")
        os.makedirs(env["ZV_EVID"], exist_ok=True)
        r = subprocess.run(["python3", "/verif/zv/run.py", p], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
        res.append(f"{p}{'*' if p == m else ''}: rc={r.returncode} " + (v[0] if v else "") + (r.stdout[-300:] if r.returncode == 1 and not allp else "") + (r.stderr[-400:] if r.returncode not in (0, 1) else ""))
    subprocess.run(["rm", "-rf", d])
    return i, "\n   ".join(res)
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for i, r in ex.map(one, ids): print(i, "\n  ", r, flush=True)
