#!/usr/bin/env python3
"""Tries planted bugs: seedrun.py [--checks P01,P04] [--notest] ID...   (in place in /repo; undone afterwards)"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; notest = "--notest" in a; checks = None; nocheck = "--nocheck" in a
if "--checks" in a:
    i = a.index("--checks"); checks = a[i + 1].split(","); del a[i:i + 2]
ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
def sh(c, **kw):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def undo():
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
resf = "/tmp/seedres.json"
res = json.load(open(resf)) if os.path.exists(resf) else {}
sh("bash /opt/vp/build.sh")
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    r = {}
    p = sh("cd /repo && bash %s/demo.sh" % d); r["demo_clean"] = p.returncode
    if p.returncode: print(p.stdout[-1500:])
    p = sh("git -C /repo apply %s/patch.diff" % d)
    if p.returncode:
        print(i, "PATCH FAILS", p.stdout); continue
    try:
        p = sh("bash /opt/vp/build.sh"); r["build"] = p.returncode
        if p.returncode: print(p.stdout[-3000:])
        p = sh("cd /repo && bash %s/demo.sh" % d); r["demo_bug"] = p.returncode
        r["demo_out"] = p.stdout[-300:]
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/o.json")
            o = json.load(open("/tmp/o.json"))
            r["tests_lost"] = [t for t in st if t not in o["passed"]]
        if not nocheck:
            for c in checks or [meta["property"]]:
                t = time.time()
                p = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py %s --tier quick" % (V, c))
                r["check_" + c] = (p.returncode, [l[:220] for l in p.stdout.splitlines() if l.startswith("VIOLATION")][:2], round(time.time() - t))
    finally:
        undo()
    sh("bash /opt/vp/build.sh")
    res[i] = r
    json.dump(res, open(resf, "w"), indent=1)
    print(i, json.dumps(r), flush=True)
