#!/usr/bin/env python3
"""seed.py make ID PROP EDITS.py  -- EDITS.py defines edits=[(file, old, new)], needs, breaks; writes seeded/ID/patch.diff + meta.json
   seed.py try ID              -- demo on the clean tree, demo and check with the patch applied to /repo (undone afterwards)"""
import json, os, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, **kw)

def clean():
    assert not subprocess.check_output("git -C /repo status --porcelain -uno", shell=True), "repo dirty"

def make(sid, prop, path):
    clean()
    d = runpy.run_path(path)
    try:
        for f, a, b in d["edits"]:
            p = os.path.join("/repo", f); s = open(p).read()
            n = s.count(a)
            assert n == 1, (f, a, n)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output("git -C /repo diff", shell=True, text=True)
    finally:
        sh("git -C /repo checkout -q -- .")
    out = os.path.join(ROOT, "seeded", sid); os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)

def trial(sid, demo=True):
    clean()
    out = os.path.join(ROOT, "seeded", sid)
    prop = json.load(open(out + "/meta.json"))["property"]
    r0 = sh("cd /repo && bash %s/demo.sh" % out, capture_output=True, text=True) if demo else None
    sh("git -C /repo apply %s/patch.diff" % out, check=True)
    try:
        r1 = sh("cd /repo && bash %s/demo.sh" % out, capture_output=True, text=True) if demo else None
        r2 = sh("cd %s && python3 checks/run.py %s" % (ROOT, prop), capture_output=True, text=True)
    finally:
        sh("git -C /repo checkout -q -- .")
    print(sid, prop, "demo clean rc=%s patched rc=%s" % (r0 and r0.returncode, r1 and r1.returncode), "check rc=%d" % r2.returncode)
    if demo and r0.returncode: print(r0.stdout[-1500:], r0.stderr[-1500:])
    if demo: print("  demo:", (r1.stdout + r1.stderr).strip()[-300:].replace("\n", "\n    "))
    print("  check:", "\n    ".join((r2.stdout + r2.stderr).strip().split("\n")[-3:])[:900])

if __name__ == "__main__":
    if sys.argv[1] == "make": make(*sys.argv[2:5])
    else:
        for s in (sys.argv[2:] or sorted(os.listdir(ROOT + "/seeded"))): trial(s, demo=sys.argv[1] == "try")
