#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

  check.py <property-id>            quick or thorough by VERIF_TIER (default quick)
  check.py --replay <replay-file>   re-execute a replay file in a fresh process
  check.py --build                  build the simulator only
  check.py --determinism [N]        determinism proof over N indices per scenario

Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Any other exit: the check itself failed.
"""
import collections
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(os.environ.get("SIM_DIR", os.path.join(VERIF, "sim")))
TARGET = os.environ.get("SIM_TARGET", os.path.join(VERIF, "target"))
BIN = os.path.join(TARGET, "debug", "simcheck")
JOBS = max(2, min(8, os.cpu_count() or 2))


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def build_env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("RUSTUP_TOOLCHAIN", "1.99.0-x86_64-unknown-linux-gnu")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    # The guarded hooks in /repo (see MANIFEST.json "hooks").
    e["RUSTFLAGS"] = "--cfg async_ui_sim"
    return e


# Scenario module (a cargo feature of the harness) deciding each property.
MODULE = {}
for _m, _ps in {"comb": "C03 C04 C05", "ui": "C01 C02 C08 C09", "lists": "C10 C11 C12", "events": "C07", "exec": "C06", "virt": "C13", "cell": "C14 C22",
                "xbow": "C15 C16 C17 C18 C19", "adapt": "C20 C21", "leak": "C23", "elements": "C24"}.items():
    for _p in _ps.split():
        MODULE[_p] = _m


def build(prop=None):
    t = time.time()
    variants = [[]]
    if prop in MODULE:
        # When a change of the repository's interfaces breaks another module of
        # the harness, this property can still be decided.
        variants.append(["--no-default-features", "--features", MODULE[prop]])
    for v in variants:
        p = subprocess.run(
            ["cargo", "build", "--offline", "--target-dir", TARGET, "-p", "simcheck"] + v,
            cwd=SIM, env=build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
        )
        if p.returncode == 0:
            return time.time() - t
    print(p.stdout[-6000:])
    die("the simulator does not build from the current tree")


def scenarios():
    out = subprocess.run([BIN, "list"], stdout=subprocess.PIPE, text=True).stdout
    r = []
    for line in out.splitlines():
        prop, name, quick, thorough = line.split()
        r.append((prop, name, int(quick), int(thorough)))
    return r


def run_env():
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    return e


def sig_class(rc):
    return "crash-signal-%d" % (-rc)


def exec_tape(scn, tape, trace=False, timeout=40, tee=None, index=None):
    """Run one tape in a fresh process -> dict(kind, key, ...)"""
    cmd = [BIN, "exec", scn]
    if trace:
        cmd.append("--trace")
    if tee:
        cmd += ["--tee", tee]
    inp = None
    if index is not None:
        cmd += ["--index", str(index[0]), str(index[1])]
    else:
        inp = " ".join(map(str, tape))
    try:
        p = subprocess.run(cmd, input=inp if inp is not None else "", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=run_env(), errors="replace")
    except subprocess.TimeoutExpired:
        return {"kind": "violation", "class": "hang", "key": "hang", "msg": "run does not finish", "tape": tape, "spans": []}
    rec = None
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            try:
                rec = json.loads(line)
            except ValueError:
                pass
    if p.returncode < 0:
        return {"kind": "violation", "class": sig_class(p.returncode), "key": sig_class(p.returncode), "msg": (p.stderr or "")[-300:].strip() or "the process was killed by a signal", "tape": tape, "spans": [], "loc": ""}
    if p.returncode == 4:
        return {"kind": "harness", "key": "harness", "msg": p.stderr[-400:]}
    if rec is None:
        return {"kind": "harness", "key": "harness", "msg": "no record, rc=%d %s" % (p.returncode, p.stderr[-300:])}
    if rec["kind"] == "violation":
        rec["key"] = rec["class"] + ("@" + rec.get("loc", "") if rec["class"] == "panic" else "")
        return rec
    if rec["kind"] == "hang":
        return {"kind": "violation", "class": "hang", "key": "hang", "msg": rec["msg"], "tape": tape, "spans": [], "loc": ""}
    rec["key"] = "ok"
    return rec


def minimise(scn, first, budget_s):
    """Shrink the choice tape while the same violation class persists."""
    best = dict(first)
    key = first["key"]
    end = time.time() + budget_s
    tried = 0
    seen = set()
    pool = cf.ThreadPoolExecutor(JOBS)

    def better(a, b):
        return (len(a), sum(a)) < (len(b), sum(b))

    def attempt(cands):
        """First candidate (in order) that keeps the violation."""
        nonlocal best, tried
        todo = []
        for c in cands:
            t = tuple(c)
            if t in seen or not better(c, best["tape"]):
                continue
            seen.add(t)
            todo.append(c)
        i = 0
        while i < len(todo):
            if time.time() > end:
                return False
            batch = todo[i:i + JOBS * 2]
            i += len(batch)
            tried += len(batch)
            for c, r in zip(batch, pool.map(lambda c: exec_tape(scn, c, timeout=35), batch)):
                if r["kind"] == "violation" and r["key"] == key:
                    t = r.get("tape") or c
                    if not better(t, best["tape"]):
                        t = c
                    best = dict(r)
                    best["tape"] = list(t)
                    return True
        return False

    changed = True
    while changed and time.time() < end:
        changed = False
        t = best["tape"]
        # shorten the tail
        n = len(t)
        cuts = []
        k = n
        while k >= 1:
            k //= 2
            cuts.append(t[:k])
        for frac in (0.9, 0.8, 0.7, 0.6, 0.95, 0.98):
            cuts.append(t[: int(n * frac)])
        cuts.sort(key=len)
        if attempt(cuts):
            changed = True
            continue
        # remove whole spans, largest first
        spans = sorted(best.get("spans") or [], key=lambda s: s[0] - s[1])
        if attempt([t[:a] + t[b:] for a, b in spans if b <= len(t)]):
            changed = True
            continue
        done = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            if size >= len(t):
                continue
            if attempt([t[:i] + t[i + size:] for i in range(len(t) - size, -1, -size)]):
                done = True
                break
        if done:
            changed = True
            continue
        # lower single values
        lows = [t[:i] + [0] + t[i + 1:] for i in range(len(t)) if t[i] > 0]
        if attempt(lows):
            changed = True
            continue
        lows = []
        for i in range(len(t)):
            if t[i] > 1:
                for v in (1, t[i] // 2, t[i] - 1):
                    if v < t[i]:
                        lows.append(t[:i] + [v] + t[i + 1:])
        if attempt(lows):
            changed = True
            continue
    pool.shutdown(wait=False, cancel_futures=True)
    best["tried"] = tried
    return best


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                if line.startswith("fixed:"):
                    continue
                out.append(json.loads(line))
    return out


def run_scenario(scn, seed, runs, wall_s, tmp):
    """Spread indices 0..runs over JOBS worker processes."""
    procs = []
    per = (runs + JOBS - 1) // JOBS
    for w in range(JOBS):
        prog = os.path.join(tmp, "%s.%d.prog" % (scn, w))
        hf = os.path.join(tmp, "%s.%d.hash" % (scn, w))
        err = open(os.path.join(tmp, "%s.%d.err" % (scn, w)), "w+")
        out = open(os.path.join(tmp, "%s.%d.out" % (scn, w)), "w+")
        p = subprocess.Popen([BIN, "worker", scn, str(seed), str(w), str(JOBS), str(per), str(int(wall_s * 1000)), prog, hf], stdout=out, stderr=err, env=run_env(), stdin=subprocess.DEVNULL)
        procs.append((p, prog, hf, out, err))
    sums, viols = [], []
    hashes = set()
    # Once one worker has found a violation, the others get a little longer
    # to find theirs.
    late = set()
    while any(q[0].poll() is None for q in procs):
        if any(q[0].poll() for q in procs):
            t = time.time()
            while time.time() - t < 3 and any(q[0].poll() is None for q in procs):
                time.sleep(0.05)
            for q in procs:
                if q[0].poll() is None:
                    late.add(q[0])
                    q[0].kill()
        time.sleep(0.02)
    for p, prog, hf, out, err in procs:
        rc = p.wait()
        if p in late:
            out.close()
            err.close()
            continue
        out.seek(0)
        err.seek(0)
        o, e = out.read(), err.read()
        rec = None
        for line in o.splitlines():
            if line.startswith("{"):
                try:
                    rec = json.loads(line)
                except ValueError:
                    pass
        if rc == 0 and rec and rec["kind"] == "summary":
            sums.append(rec)
            b = open(hf, "rb").read()
            hashes.update(struct.unpack("=%dQ" % (len(b) // 8), b))
        elif rc == 4:
            for q in procs:
                q[0].kill()
            die("simulator error in %s: %s" % (scn, e[-800:]))
        elif rec and rec["kind"] in ("violation", "hang"):
            viols.append((rec["index"], rec))
        elif rc < 0:
            try:
                idx = int(open(prog).read())
            except Exception:
                idx = 0
            viols.append((idx, {"kind": "violation", "class": sig_class(rc), "msg": e[-300:].strip(), "index": idx, "loc": ""}))
        else:
            die("worker of %s ended with code %d: %s %s" % (scn, rc, o[-300:], e[-500:]))
        out.close()
        err.close()
    viols.sort(key=lambda v: v[0])
    return sums, viols, hashes


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


REAL = ["async_ui_web_core", "async_ui_web_html", "async_ui_web", "async_ui_internal_utils", "async_ui_web_macros", "x-bow", "x-bow-macros", "async-executor (LocalExecutor)", "web-sys binding code"]
STUB = ["the browser: DOM tree, event dispatch, timers, IntersectionObserver, layout (simulated, stub/wasm-bindgen/src/sim.rs)", "wasm-bindgen JS glue", "js-sys"]


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    print("VERIF_SEED=%d tier=%s property=%s" % (seed, tier, prop), flush=True)
    build_s = build(prop)
    scns = [s for s in scenarios() if s[0] == prop]
    if not scns:
        die("no scenario for %s" % prop)
    known = [k for k in load_known() if k["property"] == prop]
    tmp = tempfile.mkdtemp(prefix="simcheck-")
    faults, probes, browser = {}, {}, {}
    runs = steps = simms = nontrivial = choices = 0
    distinct = 0
    samples = []
    per_scn = {}
    violation = None
    t_run = time.time()
    cap = 240 if tier == "quick" else 3300
    try:
        # Fixed histories of recorded, unrepaired findings.
        for k in known:
            r = exec_tape(k["scenario"], k.get("tape", []))
            if r["kind"] == "harness":
                die("known-finding probe %s: %s" % (k["scenario"], r["msg"]))
            if r["kind"] == "violation" and r["class"] == k["class"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
        for (_, name, quick, thorough) in scns:
            n = quick if tier == "quick" else thorough
            if n == 0:
                continue
            left = max(5.0, cap - (time.time() - t_run))
            sums, viols, hs = run_scenario(name, seed, n, left, tmp)
            distinct += len(hs)
            sr = 0
            for s in sums:
                sr += s["runs"]
                runs += s["runs"]
                steps += s["steps"]
                simms += s["sim_ms"]
                choices += s["choices"]
                nontrivial += s["nontrivial"]
                merge(faults, s["faults"])
                merge(probes, s["probes"])
                merge(browser, s["browser"])
                for x in s["samples"][:1]:
                    if len(samples) < 8:
                        samples.append(dict(x, scenario=name, seed=seed))
            per_scn[name] = {"runs": sr, "distinct": len(hs)}
            if viols:
                violation = (name, viols[0])
                runs += viols[0][0] // JOBS + 1
                break
        run_s = time.time() - t_run
        nviol = 0
        if violation:
            nviol = 1
            report(prop, tier, seed, violation, tmp)
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": distinct,
                "rule": "one evaluation = one simulated run, a pure function of (scenario, seed, index); every scheduling, fault and workload decision is drawn from that seed. Non-trivial: at least one injected fault actually fired and more than three choices were made. Distinct: by the 64-bit hash of the run's full event log.",
                "samples": samples or [{"scenario": scns[0][1], "seed": seed, "index": 0}],
                "nontrivial_runs": nontrivial,
                "scenarios": per_scn,
                "runs_per_hour": int(runs / max(run_s, 1e-3) * 3600),
                "seeds_per_hour": int(runs / max(run_s, 1e-3) * 3600),
                "simulated_seconds": simms / 1000.0,
                "polls_and_steps": steps,
                "choices": choices,
                "faults_injected": faults,
                "reach_probes": probes,
                "browser_operations": browser,
                "components_real": REAL,
                "components_stubbed": STUB,
                "build_s": round(build_s, 1),
                "exploration_s": round(run_s, 1),
            },
            "assumptions": [
                "the simulated browser implements the DOM, event, timer and IntersectionObserver behaviour that the code relies on (its semantics follow the WHATWG specifications)",
                "the host build (x86-64, debug assertions on) behaves as the wasm32 build for the explored code",
            ],
            "wall_s": round(time.time() - t0, 2),
            "violations": nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if violation:
            sys.exit(1)
        print("OK property=%s runs=%d distinct=%d build=%.1fs explore=%.1fs" % (prop, runs, distinct, build_s, run_s), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, tier, seed, violation, tmp):
    name, (index, rec) = violation
    tee = os.path.join(tmp, "tee")
    first = exec_tape(name, [], tee=tee, index=(seed, index))
    if first["kind"] != "violation":
        # Observed once but not from a fresh process: report what was seen.
        first = dict(rec)
        first["key"] = rec["class"]
        first.setdefault("tape", [])
        best = first
        repro = False
    else:
        if not first.get("tape"):
            try:
                first["tape"] = [int(x) for x in open(tee).read().split()]
            except Exception:
                first["tape"] = []
        best = minimise(name, first, 45 if tier == "quick" else 240)
        repro = True
    final = exec_tape(name, best["tape"], trace=True) if repro else best
    again = exec_tape(name, best["tape"]) if repro else best
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s-%d-%d.json" % (prop, name, seed, index))
    out = {
        "property": prop,
        "scenario": name,
        "seed": seed,
        "index": index,
        "class": best["class"],
        "key": best.get("key"),
        "msg": final.get("msg", best.get("msg")),
        "loc": final.get("loc", ""),
        "tape": best["tape"],
        "log_hash": final.get("log_hash"),
        "original_choices": len(first.get("tape", [])),
        "minimised_choices": len(best["tape"]),
        "candidates_tried": best.get("tried", 0),
        "reproduced_in_fresh_process": bool(repro and again.get("key") == best.get("key") and again.get("log_hash") == final.get("log_hash")),
        "trace": final.get("trace", []),
    }
    with open(path, "w") as f:
        json.dump(out, f, indent=1)
    print("violation class=%s scenario=%s seed=%d index=%d" % (out["class"], name, seed, index))
    print("  " + str(out["msg"]))
    if out["loc"]:
        print("  at " + out["loc"])
    print("  minimised %d -> %d choices; history:" % (out["original_choices"], out["minimised_choices"]))
    for l in out["trace"][-60:]:
        print("    " + l)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def replay(path):
    d = json.load(open(path))
    build()
    r = exec_tape(d["scenario"], d["tape"], trace=True)
    for l in r.get("trace", []):
        print("    " + l)
    same = r["kind"] == "violation" and r["key"] == d["key"] and (not d.get("log_hash") or r.get("log_hash") == d["log_hash"])
    print("replay: %s class=%s %s" % (r["kind"], r.get("class"), r.get("msg", "")))
    print("replay: %s" % ("reproduced exactly" if same else "NOT the recorded violation"))
    if r["kind"] == "violation":
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        sys.exit(1)
    sys.exit(0)


def determinism(n):
    """Hash every run's event log twice, across many processes."""
    build()
    seeds = [1, 2, 3, 17, 12345]
    bad = 0
    total = 0
    jobs = []
    for (prop, name, _, _) in scenarios():
        for s in seeds:
            for first, cnt in ((0, n), (n, n)):
                jobs.append((name, s, first, cnt))

    def one(j):
        name, s, first, cnt = j
        cmd = [BIN, "hashes", name, str(s), str(first), str(cnt)]
        outs = []
        for k in range(2):
            e = run_env()
            e["PAD"] = "x" * (k * 3001)  # different process layout
            outs.append(subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=e).stdout)
        # the second half again, one process per 7 runs
        third = []
        for f in range(first, first + cnt, 7):
            c = min(7, first + cnt - f)
            third += [l for l in subprocess.run([BIN, "hashes", name, str(s), str(f), str(c)], stdout=subprocess.PIPE, text=True).stdout.splitlines() if not l.startswith("all")]
        ref = [l for l in outs[0].splitlines() if not l.startswith("all")]
        return outs[0] == outs[1] and third == ref and len(ref) == cnt

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for j, ok in zip(jobs, ex.map(one, jobs)):
            total += j[3]
            if not ok:
                bad += 1
                print("DIVERGED", j)
    print("determinism: %d runs x3, %d diverging groups" % (total, bad))
    sys.exit(1 if bad else 0)


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--build":
        print("built in %.1f s" % build())
    elif a[0] == "--replay":
        replay(a[1])
    elif a[0] == "--determinism":
        determinism(int(a[1]) if len(a) > 1 else 40)
    else:
        check(a[0])


if __name__ == "__main__":
    main()
