#!/usr/bin/env python3
"""Builds the simulated programs from /repo's working tree and runs them.

  check.py setup                 build every program once
  check.py <ID> [quick|thorough] decide one property
  check.py replay <FILE>         replay a violation file
  check.py selftest [RUNS]       same seeds twice, other worker counts, other processes: same histories
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "known-findings.txt")

FLAVOURS = {
    # name: cargo arguments, profile directory
    "par-dev": (["--features", "par"], "debug"),
    "par-release": (["--features", "par", "--release"], "release"),
    "full-dev": (["--features", "full"], "debug"),
    "full-release": (["--features", "full", "--release"], "release"),
    "lite-dev": ([], "debug"),
}
# runs per flavour in the quick tier; the thorough tier multiplies
P = "par-dev"
R = "par-release"
L = "lite-dev"
PLAN = {
    "C01": {P: 4000, R: 6000},
    "C02": {P: 6000, R: 8000},
    "C03": {P: 16000, R: 16000, L: 8000},
    "C04": {"full-dev": 2500, "full-release": 2500},
    "C05": {P: 10000, R: 10000, L: 5000},
    "C06": {P: 5000, R: 5000, L: 3000},
    "C07": {P: 6000, R: 6000, L: 4000},
    "C08": {P: 4000, R: 4000, L: 4000},
    "C09": {P: 6000, R: 6000, L: 6000},
    "C10": {P: 3000, R: 3000, L: 3000},
    "C11": {"full-dev": 4000, "full-release": 4000},
    "C12": {P: 8000, R: 8000, L: 6000},
    "C13": {P: 6000, R: 8000},
    "C14": {P: 3000, R: 3000, L: 3000},
}
THOROUGH = 25
LITE_FIRST = False


def sh_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC"):
            del e[k]
    e["RUSTC_BOOTSTRAP"] = "1"
    e["RUSTC_WRAPPER"] = os.path.join(VERIF, "sim", "wrap.sh")
    return e


def tree_hash():
    """Everything the programs are built from in /repo and here."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "rpcl2"), os.path.join(REPO, "rpcl2-derive"), os.path.join(VERIF, "sim")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "README.md")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        try:
            with open(f, "rb") as fd:
                h.update(f.encode() + b"\0" + fd.read() + b"\0")
        except OSError:
            pass
    return h.hexdigest()


def build(flavour, bins, out):
    """Builds with its own target directory; returns None or what went wrong."""
    args, prof = FLAVOURS[flavour]
    tgt = os.path.join(BUILD, flavour)
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(tgt, "tree.hash")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        # the contents decide, not the times of the files
        fp = os.path.join(tgt, prof, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("ros_pointcloud2-", "rpcl2-derive-", "simbin-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    cmd = ["cargo", "+stable", "build", "--offline", "-q", "-p", "simbin", "--no-default-features"] + args
    for b in bins:
        cmd += ["--bin", b]
    env = sh_env()
    env["CARGO_TARGET_DIR"] = tgt
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "sim"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        out[flavour] = p.stdout[-6000:]
        return
    with open(stamp, "w") as f:
        f.write(now)
    out[flavour] = None


def build_all(wanted):
    """wanted: {flavour: [bins]}; True when everything was built."""
    out = {}
    ts = [threading.Thread(target=build, args=(f, b, out)) for f, b in wanted.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for f in wanted:
        if out.get(f, "no answer") is not None:
            print(f"build of {f} failed:\n{out.get(f)}", file=sys.stderr)
            return False
    return True


def binary(flavour, prop):
    return os.path.join(BUILD, flavour, FLAVOURS[flavour][1], "sim_" + prop.lower())


def known_file(prop):
    """known-findings.txt: 'known: property=<id> class=<class> contains=<text>' suppresses, 'fixed: ...' does not."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            d = {}
            rest = line[len("known:"):].strip()
            for key in ("property=", "class=", "contains="):
                if key in rest:
                    v = rest.split(key, 1)[1]
                    for k2 in (" property=", " class=", " contains="):
                        if key != "contains=":
                            v = v.split(k2, 1)[0]
                    d[key[:-1]] = v.strip()
            if "property" in d and "class" in d:
                out.append(d)
    path = os.path.join(BUILD, f"known-{prop}.json")
    with open(path, "w") as f:
        json.dump(out, f)
    return path


RULES = {}


def run_one(prop, flavour, runs, seed, seconds, shrink, workers=8, tag=""):
    out = os.path.join(BUILD, f"report-{prop}-{flavour}{tag}.json")
    rep = os.path.join(VERIF, "replays", f"{prop}-{flavour}{tag}.json")
    for f in (out, rep):
        if os.path.exists(f):
            os.remove(f)
    cmd = [binary(flavour, prop), "check", prop, "--runs", str(runs), "--seed", str(seed), "--workers", str(workers),
           "--seconds", str(seconds), "--shrink", str(shrink), "--out", out, "--replay", rep, "--known", known_file(prop)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=seconds + 400)
        rc, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, text = 2, f"no answer in time: {e}"
    d = None
    if os.path.exists(out):
        try:
            d = json.load(open(out))
        except ValueError:
            pass
    return rc, text, d, rep


def manifest_check(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c
    except (OSError, ValueError, KeyError):
        pass
    return {}


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = PLAN[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not build_all({f: ["sim_" + prop.lower()] for f in plan}):
        print("the programs could not be built: no answer")
        return 2
    built = time.time() - t0
    reports = []
    code = 0
    violations = 0
    left = 700 if tier == "quick" else 6 * 3600
    t1 = time.time()
    for k, (flavour, runs) in enumerate(plan.items()):
        n = runs if tier == "quick" else runs * THOROUGH
        cap = max(20, int(left * 0.8 - (time.time() - t1)) // (len(plan) - k)) if tier == "quick" else 3600
        base = seed * 16 + k
        rc, text, d, rep = run_one(prop, flavour, n, base, cap, 25 if tier == "quick" else 120)
        if d is None:
            print(f"{flavour}: no report (exit {rc})\n{text[-3000:]}", file=sys.stderr)
            code = 2
            break
        reports.append((flavour, d))
        for f in d.get("known", []):
            print(f"KNOWN-FINDING: property={prop} {f['class']}: {f['detail'][:300]}")
        v = d.get("violation")
        if rc == 1 and v:
            violations += 1
            print(f"{flavour}: {v['class']}: {v['detail'][:2000]}")
            print(f"seed {v['seed']}, {v['choices_after']} of {v['choices_before']} decisions left after {v['shrink_runs']} shrinking runs,"
                  f" replay stable: {v['replay_stable']}")
            print(f"VIOLATION property={prop} replay={rep}")
            code = 1
            break
        if rc != 0:
            print(f"{flavour}: harness trouble: {d.get('errors')}", file=sys.stderr)
            code = 2
            break
        if d["runs"] < min(n, 50):
            print(f"{flavour}: only {d['runs']} runs in {cap} s", file=sys.stderr)
            code = 2
            break
    det = None
    if code == 0:
        # the same seeds again, on another number of processes
        flavour = next(iter(plan))
        n = min(300, plan[flavour])
        hs = [run_one(prop, flavour, n, seed * 16, 60, 1, workers=w, tag=f"-again{w}")[2] for w in (8, 3)]
        if all(hs):
            det = {"seeds_repeated": n, "process_counts": [8, 3], "identical_histories": hs[0]["result_hash"] == hs[1]["result_hash"]}
    evidence(prop, tier, seed, reports, violations, built, time.time() - t0, det)
    tot = sum(d["runs"] for _, d in reports)
    print(f"{prop} {tier}: {tot} simulated runs in {sum(d['wall_s'] for _, d in reports):.1f} s (built in {built:.0f} s), exit {code}")
    return code


def merge(reports, key):
    out = {}
    for _, d in reports:
        for k, v in d.get(key, {}).items():
            out[k] = out.get(k, 0) + v
    return out


def evidence(prop, tier, seed, reports, violations, built, wall, det):
    from props_meta import META
    m = META[prop]
    runs = sum(d["runs"] for _, d in reports)
    rw = sum(d["wall_s"] for _, d in reports) or 1e-9
    probes = merge(reports, "probes")
    probe_runs = merge(reports, "probe_runs")
    samples = []
    for fl, d in reports:
        for s in d.get("samples", [])[:1]:
            samples.append({"flavour": fl, "seed": s["seed"], "history": s["history"].splitlines()[:40]})
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(d["distinct_histories"] for _, d in reports),
        "rule": m["rule"],
        "samples": samples,
        "runs_per_hour": int(runs / rw * 3600),
        "seeds_per_hour": int(runs / rw * 3600),
        "base_seeds": {fl: d["base_seed"] for fl, d in reports},
        "first_seeds": {fl: d["first_seeds"] for fl, d in reports},
        "simulated_time_s": round(sum(d["sim_time_us"] for _, d in reports) / 1e6, 3),
        "simulated_time_note": m.get("time", "the code under test reads no clock; time is counted in instrumented steps"),
        "simulated_steps": sum(d["steps"] for _, d in reports),
        "task_switches": sum(d["switches"] for _, d in reports),
        "stolen_jobs": sum(d["steals"] for _, d in reports),
        "decisions_drawn": sum(d["choices"] for _, d in reports),
        "distinct_schedules": sum(d["distinct_schedules"] for _, d in reports),
        "distinct_schedules_rule": "hash of every scheduling decision of a run (who runs, who steals, where it is preempted), runs with at least one switch",
        "faults_injected": {k[6:]: v for k, v in sorted(probes.items()) if k.startswith("fault:")},
        "runs_with_fault": {k[6:]: v for k, v in sorted(probe_runs.items()) if k.startswith("fault:")},
        "conditions_reached": {k: v for k, v in sorted(probe_runs.items()) if not k.startswith("fault:")},
        "flavours": {fl: {"runs": d["runs"], "nontrivial": d["nontrivial_runs"], "distinct_histories": d["distinct_histories"],
                          "wall_s": round(d["wall_s"], 2), "instrumented_branches_reached": d["edges_hit"],
                          "instrumented_branches": d["edges_total"], "largest_heap_bytes": d["max_peak_bytes"]} for fl, d in reports},
        "real_code": m["real"],
        "stubs": m["stubs"],
        "determinism": det,
        "build_s": round(built, 1),
    }
    for _, d in reports:
        if d.get("violation"):
            cov["violation"] = d["violation"]
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": m["assumptions"], "wall_s": round(wall, 2), "violations": violations,
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")


def setup():
    os.makedirs(BUILD, exist_ok=True)
    wanted = {}
    for prop, plan in PLAN.items():
        for f in plan:
            wanted.setdefault(f, []).append("sim_" + prop.lower())
    return 0 if build_all(wanted) else 2


def replay(path):
    d = json.load(open(path))
    prop, flavour = d["property"], d["flavour"]
    os.makedirs(BUILD, exist_ok=True)
    if not build_all({flavour: ["sim_" + prop.lower()]}):
        return 2
    return subprocess.run([binary(flavour, prop), "replay", path]).returncode


def selftest(n):
    """Determinism: each program, seeds run in several ways."""
    bad = 0
    if setup() != 0:
        return 2
    for prop, plan in PLAN.items():
        for flavour in plan:
            hs = set()
            for seed in (1, 2, 3):
                x = {}
                for w in (8, 1, 3, 8, 5):
                    r = run_one(prop, flavour, n, seed, 300, 1, workers=w, tag="-self")
                    x.setdefault(r[2]["result_hash"] if r[2] and r[2]["runs"] == n else f"incomplete {r[0]} {r[1][-300:]}", []).append(w)
                if len(x) != 1:
                    bad += 1
                    print(f"NOT DETERMINISTIC: {prop} {flavour} seed {seed}: {x}")
                hs.add(next(iter(x)))
            print(f"{prop} {flavour}: {3 * 5 * n} runs, {'ok' if len(hs) == 3 else 'seeds do not differ'}", flush=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        return setup()
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "selftest":
        return selftest(int(a[1]) if len(a) > 1 else 200)
    if a[0] not in PLAN:
        print(f"unknown property {a[0]}", file=sys.stderr)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    sys.exit(main())
