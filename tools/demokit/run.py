#!/usr/bin/env python3
"""Builds the demonstration beside this file against the repository in the
current directory (in a scratch folder) and runs it."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
env = dict(os.environ)
env["HOME"] = "/root"
env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
env["CARGO_NET_OFFLINE"] = "true"
env["RUSTC_WRAPPER"] = ""
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
    env.pop(k, None)
with tempfile.TemporaryDirectory(prefix="demo-") as t:
    shutil.copytree(os.path.join(here, "stub"), os.path.join(t, "stub"))
    os.makedirs(os.path.join(t, "src"))
    for f in ("main.rs", "kit.rs"):
        shutil.copy(os.path.join(here, f), os.path.join(t, "src", f))
    shutil.copy(os.path.join(here, "lock"), os.path.join(t, "Cargo.lock"))
    toml = open(os.path.join(here, "manifest.txt")).read().replace("@REPO@", repo)
    open(os.path.join(t, "Cargo.toml"), "w").write(toml)
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print(b.stdout[-4000:])
        sys.exit(3)
    try:
        r = subprocess.run([os.path.join(t, "target", "debug", "demo")], cwd=t, timeout=60)
    except subprocess.TimeoutExpired:
        print("the demonstration does not finish")
        sys.exit(1)
    sys.exit(0 if r.returncode == 0 else 1)
