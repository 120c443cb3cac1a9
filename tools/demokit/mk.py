#!/usr/bin/env python3
"""mk.py <id> <main.rs> <property> <needs> <what>: assembles seeded/<id> from
the uncommitted diff of the scratch worktree /tmp/wt and the demo kit."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
id, main, prop, needs, what = sys.argv[1:6]
wt = os.environ.get("WT", "/tmp/wt")
d = os.path.join(root, "seeded", id)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
assert diff
open(os.path.join(d, "patch.diff"), "wb").write(diff)
for f in ("run.py", "demo.sh", "kit.rs", "manifest.txt"):
    shutil.copy(os.path.join(here, f), os.path.join(d, f))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
shutil.copy(main, os.path.join(d, "main.rs"))
shutil.copy(os.path.join(here, "lock"), os.path.join(d, "lock"))
s = os.path.join(d, "stub")
if os.path.isdir(s):
    shutil.rmtree(s)
shutil.copytree(os.path.join(root, "sim", "stub"), s, ignore=shutil.ignore_patterns("target"))
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
