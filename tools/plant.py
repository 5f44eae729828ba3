#!/usr/bin/env python3
"""Planted bugs: confirm one in a scratch copy, or run the checks against it.

  plant.py confirm ID...      demo passes clean; with the patch it builds, passes the stable tests, demo fails
  plant.py catch ID... [-- PROPS]   apply to /repo, run the property's check (or PROPS), undo
"""
import json, os, subprocess, sys, time
SEEDED = "/verif/seeded"
W = "/tmp/plant"
COPY = W + "/repo"

def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def script(name):
    s = open("/opt/vp/" + name).read()
    env = open("/opt/vp/env.sh").read().replace("cd /repo", "cd " + COPY)
    os.makedirs(W + "/work", exist_ok=True)
    open(W + "/env.sh", "w").write(env)
    p = W + "/" + name
    open(p, "w").write(s.replace("/opt/vp/env.sh", W + "/env.sh").replace("/opt/vp/work", W + "/work"))
    return p

def copy():
    os.makedirs(W, exist_ok=True)
    r = sh(f"rsync -a --delete --exclude=/target /repo/ {COPY}/ 2>/dev/null || (mkdir -p {COPY} && cd /repo && tar cf - --exclude=./target . | tar xf - -C {COPY})")
    if not os.path.isdir(COPY + "/target"):
        sh(f"cp -a /repo/target {COPY}/target")
    sh(f"git -C {COPY} checkout -q -- . && git -C {COPY} clean -fdq")

def confirm(i):
    d = f"{SEEDED}/{i}"
    copy()
    b, t = script("build.sh"), script("test.sh")
    def demo():
        s = time.time()
        try:
            r = sh(f"bash {d}/demo.sh", cwd=COPY, timeout=300)
            return r.returncode, time.time() - s, (r.stdout + r.stderr)[-1500:]
        except subprocess.TimeoutExpired:
            return 124, 300, "timeout"
    rc0, s0, o0 = demo()
    if rc0:
        return False, f"demo fails clean rc={rc0}\n{o0}"
    r = sh(f"git -C {COPY} apply {d}/patch.diff")
    if r.returncode:
        return False, "does not apply " + r.stderr
    r = sh(f"bash {b}")
    if r.returncode:
        return False, "build: " + r.stderr[-2500:]
    r = sh(f"bash {t} {W}/out.json")
    out = json.load(open(W + "/out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = set(out.get("passed", out.get("pass", [])))
    lost = stable - ok
    if lost:
        return False, f"tests lost: {sorted(lost)}\n{r.stdout[-800:]}"
    rc1, s1, o1 = demo()
    if rc1 == 0:
        return False, "demo passes with the bug\n" + o1
    return True, f"clean {s0:.0f}s, patched rc={rc1} {s1:.0f}s: {o1.strip().splitlines()[-1][:150] if o1.strip() else ''}"

def catch(i, props):
    d = f"{SEEDED}/{i}"
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        return {"apply": r.stderr}
    res = {}
    try:
        for p in props:
            s = time.time()
            r = sh(f"python3 /verif/check.py {p}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[p] = (r.returncode, round(time.time() - s), (v[0] if v else r.stdout[-300:] + r.stderr[-300:]))
    finally:
        sh("git -C /repo checkout -- .")
    return res

def main():
    a = sys.argv[2:]
    props = []
    if "--" in a:
        k = a.index("--"); props = a[k + 1:]; a = a[:k]
    a = a or sorted(os.listdir(SEEDED))
    for i in a:
        if sys.argv[1] == "confirm":
            ok, why = confirm(i)
            print(("OK  " if ok else "BAD ") + i, why, flush=True)
        else:
            for p, x in catch(i, props).items():
                print(i, p, *x, flush=True)
main()
