#!/usr/bin/env python3
"""seed.py ID... : confirms planted bugs in scratch copies and runs the check of their property.
   seed.py new ID FILE PROPERTY : makes patch.diff from OLD/NEW text read from stdin (separated by a line of ====)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOFLAGS="")
STABLE = "TestCalcCrc|TestCompress|TestDecompress|TestDecompressBytes|TestInformationHeader|TestListHeader"

def sh(cmd, cwd, t=400):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=d, check=True)
    return d

def one(i, props=None):
    sd = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    d = copy()
    tmp = tempfile.mkdtemp(prefix="seeddemo-")
    try:
        demo = os.path.join(tmp, "demo")
        shutil.copytree(sd, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        rc0, out0 = sh("bash %s/demo.sh" % demo, d)
        rc, o = sh("git apply " + os.path.join(sd, "patch.diff"), d)
        if rc: print(i, "PATCH DOES NOT APPLY", o); return
        rcb, ob = sh("go build ./...", d)
        rct, ot = sh("go test -vet=off -count=1 -run '^(%s)$' ." % STABLE, d)
        sh("git clean -fdxq", d)
        rc1, out1 = sh("bash %s/demo.sh" % demo, d)
        ok = rc0 == 0 and rcb == 0 and rct == 0 and rc1 != 0
        print(i, "valid" if ok else "INVALID demo-clean=%d build=%d tests=%d demo-patched=%d" % (rc0, rcb, rct, rc1), flush=True)
        if not ok:
            print((out0[-1500:] if rc0 else "") + (ob if rcb else "") + (ot[-1500:] if rct else ""))
        sh("git clean -fdxq", d)
        for p in props or [meta["property"]]:
            rc, o = sh("%s/bin/gosym check -tier quick -root %s -repo %s -evidence %s/ev %s" % (ROOT, ROOT, d, tmp, p), ROOT, 900)
            lines = [l for l in o.splitlines() if "VIOLATION" in l or "job " in l or "INCONCL" in l]
            print("  ", p, "exit", rc, "CAUGHT" if rc == 1 else "MISSED", "; ".join(lines[:3])[:300], flush=True)
    finally:
        shutil.rmtree(d); shutil.rmtree(tmp)

def new(i, f, prop):
    old, new = sys.stdin.read().split("\n====\n")
    new = new.rstrip("\n"); old = old.rstrip("\n")
    d = copy()
    try:
        p = os.path.join(d, f); s = open(p).read()
        assert s.count(old) == 1, "matches: %d" % s.count(old)
        open(p, "w").write(s.replace(old, new))
        sd = os.path.join(SEEDED, i); os.makedirs(sd, exist_ok=True)
        pf = os.path.join(sd, "patch.diff")
        r = subprocess.run("git diff", shell=True, cwd=d, capture_output=True, text=True)
        open(pf, "w").write(r.stdout)
    finally:
        shutil.rmtree(d)

if sys.argv[1] == "new": new(*sys.argv[2:])
else:
    ids = sys.argv[1:]
    props = None
    if "-p" in ids: k = ids.index("-p"); props = ids[k+1].split(","); del ids[k:k+2]
    if ids == ["all"]: ids = sorted(os.listdir(SEEDED))
    for i in ids: one(i, props)
