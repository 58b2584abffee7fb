#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  - reads a spec on stdin:
sections separated by lines '@@old path', '@@new', '@@main' (Rust main.rs), '@@needs', '@@breaks', '@@post', '@@feat'
Makes /verif/seeded/ID, tests it in a scratch copy."""
import sys, os, re, json, subprocess, shutil, tempfile
T = os.path.dirname(os.path.abspath(__file__))
def main():
    sid, prop = sys.argv[1], sys.argv[2]
    fast = "--notest" in sys.argv
    cur, sec = None, []
    for l in sys.stdin.read().split("\n"):
        if l.startswith("@@"):
            cur = [l[2:].strip(), []]; sec.append(cur)
        elif cur: cur[1].append(l)
    d = "/tmp/seedwork"
    subprocess.run(["rm", "-rf", d]); subprocess.run(["cp", "-a", "/repo", d], check=True)
    edits, extra = [], {}
    i = 0
    while i < len(sec):
        k, b = sec[i]; b = "\n".join(b)
        if k.startswith("old"):
            path = k.split()[1]; new = "\n".join(sec[i + 1][1]); i += 1
            edits.append((path, b, new))
        else: extra[k] = b
        i += 1
    for path, o, n in edits:
        p = os.path.join(d, path); s = open(p).read()
        assert s.count(o) == 1, (path, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    out = f"/verif/seeded/{sid}"
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    assert diff
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/main.rs", "w").write("mod jpg;\n#[allow(unused_imports)]\nuse jpg::*;\n#[allow(unused_imports)]\nuse zune_jpeg::*;\n" + extra["main"])
    shutil.copy(f"{T}/jpg.rs", f"{out}/jpg.rs")
    sh = open(f"{T}/demo.sh").read().replace("@FEAT@", extra.get("feat", "").strip()).replace("@POST@", extra.get("post", "").strip())
    open(f"{out}/demo.sh", "w").write(sh); os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": extra["needs"].strip(), "what_it_breaks": extra["breaks"].strip()}, open(f"{out}/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", f"{out}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", f"{out}/demo.sh"], cwd=d, capture_output=True, text=True)
    print("clean rc", r0.returncode, r0.stdout[-400:], r0.stderr[-600:]); print("bug rc", r1.returncode, r1.stdout[-400:], r1.stderr[-300:])
    ok = r0.returncode == 0 and r1.returncode not in (0, 3)
    if ok and not fast:
        t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {d}")
        open("/tmp/seedtest.sh", "w").write(t)
        subprocess.run(["bash", "/tmp/seedtest.sh", "/tmp/seed.json"], capture_output=True)
        o = json.load(open("/tmp/seed.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        miss = [x for x in b["stable"] if x not in o["passed"]]
        print("tests", len(o["passed"]), "missing", miss)
        ok = not miss
    print("SEED", sid, "OK" if ok else "BAD")
    subprocess.run(["rm", "-rf", d])
main()
