#!/usr/bin/env python3
"""plant.py <bugs.py> [id...]: for every bug in the list applies its edits to a
scratch copy of the repository (/tmp/wt), checks that they touch original lines
and assembles seeded/<id>."""
import os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
WT = "/tmp/wt"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", WT, "diff", "-U0"], stdout=subprocess.PIPE, text=True).stdout
    cur = None
    orig = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = subprocess.run(["git", "-C", WT, "show", "2c81ece:" + l[6:]], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            if l[1:] in cur:
                orig += 1
            else:
                print(b["id"], "not an original line:", l)
    if not orig:
        print(b["id"], "WARNING: changes no original line")
    with tempfile.NamedTemporaryFile("w", suffix=".rs") as t:
        t.write("mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n" + b["demo"])
        t.flush()
        subprocess.run([sys.executable, os.path.join(here, "mk.py"), b["id"], t.name, b["property"], b["needs"], b["what"]], check=True)
    print("planted", b["id"])
subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
