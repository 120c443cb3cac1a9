#!/usr/bin/env python3
"""try.py [--check-only|--demo-only] [id...]: tries the planted bugs in seeded/ on /repo and prints,
per bug: demo on the clean tree / stable tests / demo / check with the bug."""
import json, os, subprocess, sys, time
V = "/verif"
R = "/repo"
def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
only_check = "--check-only" in sys.argv
only_demo = "--demo-only" in sys.argv
ids = args or sorted(os.listdir(V + "/seeded"))
base = json.load(open("/opt/vp/BASELINE.json"))
assert sh(["git", "status", "--porcelain"], R)[1].strip() == ""
clean = {}
if not only_check:
    for i in ids:
        rc, out = sh(["bash", f"{V}/seeded/{i}/demo.sh"], R, 300)
        clean[i] = rc
        if rc != 0: print(i, "DEMO ON CLEAN TREE FAILS", rc, out[-1500:], flush=True)
try:
    for i in ids:
        d = f"{V}/seeded/{i}"
        prop = json.load(open(d + "/meta.json"))["property"]
        rc, out = sh(["git", "apply", d + "/patch.diff"], R)
        if rc:
            print(i, "does not apply", out); continue
        row = [i, prop]
        if not only_check:
            rc, out = sh(["bash", "/opt/vp/build.sh"], R)
            row.append("build %d" % rc)
            rc, out = sh(["bash", "/opt/vp/test.sh", "/tmp/try.json"], R)
            try:
                t = json.load(open("/tmp/try.json"))
                row.append("tests " + json.dumps(t)[:0] + str(summ(t)) if False else "tests rc%d" % rc)
                p = t.get("passed"); f = t.get("failed")
                row.append("p%s f%s" % (len(p) if hasattr(p, "__len__") else p, len(f) if hasattr(f, "__len__") else f))
            except Exception as x:
                row.append("tests? %r" % x)
            rc, out = sh(["bash", d + "/demo.sh"], R, 300)
            row.append("demo clean=%d bug=%d" % (clean[i], rc))
            if rc == 3: print(out[-1500:])
        if not only_demo:
            t0 = time.time()
            rc, out = sh([sys.executable, V + "/check.py", prop], V, 900, {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            row.append("check rc=%d %.0fs %s" % (rc, time.time() - t0, v[0][:120] if v else "--- MISSED " + out[-200:]))
        print(*row, flush=True)
        sh(["git", "checkout", "--", "."], R)
finally:
    sh(["git", "checkout", "--", "."], R)
