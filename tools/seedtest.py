#!/usr/bin/env python3
"""seedtest.py [--nocheck] [--props C01,C02] [-j N] [--dir D] [ID...]: for each
seeded bug, confirms that it builds, passes the stable tests, that its demo
tells the trees apart, and whether the check of its property catches it. Works
on a scratch copy of /repo that a private mount namespace shows as /repo.
Development tool, no check uses it."""
import json, os, subprocess, sys, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
from threading import Lock
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--nocheck", action="store_true")
ap.add_argument("--props")
ap.add_argument("-j", type=int, default=2)
ap.add_argument("--dir", default=os.path.join(HERE, "seeded"))
ap.add_argument("--tier", default="quick")
ap.add_argument("ids", nargs="*")
A = ap.parse_args()
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
build_lock = Lock()

def one(i):
    d = os.path.join(A.dir, i)
    if not os.path.exists(os.path.join(d, "meta.json")):
        return
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = [i, prop]
    w = tempfile.mkdtemp(prefix="seedrepo-")
    def sh(cmd, cwd="/repo"):
        return subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s /repo && cd %s && %s" % (w, cwd, cmd)],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
    try:
        subprocess.run("cp -a /repo/. %s/ && git -C %s checkout -q -- ." % (w, w), shell=True, check=True)
        c = sh("timeout 300 bash %s/demo.sh" % d)
        out.append("demo clean ok" if c.returncode == 0 else "DEMO FAILS ON CLEAN TREE: " + c.stdout[-800:])
        a = sh("git apply %s/patch.diff" % d)
        if a.returncode:
            return out + ["DOES NOT APPLY " + a.stdout]
        with build_lock:
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                return out + ["DOES NOT BUILD " + b.stdout[-500:]]
            res = os.path.join(w, "seed_out.json")
            sh("bash /opt/vp/test.sh " + res)
            miss = base - set(json.load(open(res))["passed"])
            os.remove(res)
        out.append("tests ok" if not miss else "TESTS FAIL: %d %s" % (len(miss), sorted(miss)[:2]))
        c = sh("timeout 300 bash %s/demo.sh" % d)
        out.append("demo fails ok" if c.returncode else "DEMO DOES NOT FAIL")
        if not A.nocheck:
            for p in A.props.split(",") if A.props else [prop]:
                k = sh("VERIF_SEED=%s timeout 900 python3 tools/check.py %s %s" % (os.environ.get("VERIF_SEED", "1"), p, A.tier), HERE)
                v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
                n = [l for l in k.stdout.splitlines() if l.startswith("violation:")]
                out.append("%s CAUGHT (%s)" % (p, n[0][11:80]) if k.returncode == 1 and v else "%s ** exit %d ** %s" % (p, k.returncode, k.stdout[-1500:]))
        return out
    finally:
        shutil.rmtree(w)

ids = A.ids or sorted(os.listdir(A.dir))
with ThreadPoolExecutor(A.j) as ex:
    for o in ex.map(one, ids):
        if o:
            print(" | ".join(o), flush=True)
