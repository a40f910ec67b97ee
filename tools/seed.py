#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).

  seed.py confirm ID...   scratch copy: patch applies, builds, stable tests pass, demo 0 / nonzero
  seed.py catch ID... [--seeds 1,2]   apply to /repo, run the property's check, undo
"""
import json, os, subprocess, sys, shutil, time
SEED = "/verif/seeded"
def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"
def confirm(i):
    d = os.path.join(SEED, i)
    w = "/tmp/seedw"
    res = []
    demo = "/tmp/seeddemo"
    shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
    # demos run against /repo, so patch it there for the shortest time
    t = time.time(); rc, o = sh("bash %s/demo.sh" % demo, cwd="/repo", timeout=300); res.append("demo-clean=%d (%.0fs)" % (rc, time.time()-t))
    if rc: print(o[-3000:])
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc: print(i, "does not apply", o); return
    try:
        rc, o = sh("bash /opt/vp/build.sh"); res.append("build=%d" % rc)
        if rc: print(o[-2000:])
        t = time.time(); rc, o = sh("bash %s/demo.sh" % demo, cwd="/repo", timeout=300); res.append("demo-patched=%d (%.0fs)" % (rc, time.time()-t)); print(o[-600:])
        sh("bash /opt/vp/test.sh /tmp/t.json"); rc, o = sh("python3 /tmp/cmp.py"); res.append("tests: " + o.strip()[-300:])
    finally:
        sh("git -C /repo checkout -- .")
    print(i, *res)
def catch(i, seeds):
    d = os.path.join(SEED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc: print(i, "does not apply", o); return
    try:
        for s in seeds:
            t = time.time()
            rc, o = sh("python3 check.py " + prop, cwd="/verif", env={"VERIF_SEED": s})
            v = [l for l in o.splitlines() if "VIOLATION" in l or " case " in l]
            print(i, prop, "seed", s, "rc", rc, "%.0fs" % (time.time()-t), "\n     ".join(x[:260] for x in v[:3]), flush=True)
            if rc not in (0,1): print(o[-2000:])
    finally:
        sh("git -C /repo checkout -- .")
a = sys.argv[1:]
seeds = ["1"]
if "--seeds" in a:
    k = a.index("--seeds"); seeds = a[k+1].split(","); del a[k:k+2]
ids = a[1:] or sorted(os.listdir(SEED))
for i in ids:
    confirm(i) if a[0] == "confirm" else catch(i, seeds)
