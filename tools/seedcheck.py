#!/usr/bin/env python3
"""For each planted bug (all, or those named): in a scratch copy of /repo, apply it, build and run the repository's stable
tests, run its demo with and without it, and run the quick check of its property (or the checks given with --checks).
seedcheck.py [--nocheck] [--seeds 1,2] [id...]"""
import argparse, glob, json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--nocheck", action="store_true"); ap.add_argument("--notest", action="store_true")
ap.add_argument("--checks"); ap.add_argument("--seeds", default="1"); ap.add_argument("-j", type=int, default=4)
ap.add_argument("ids", nargs="*")
o = ap.parse_args()
S = "/tmp/seedcheck"
base = S + "/base"


def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def tests(d):
    srcs = [f for f in glob.glob(d + "/test/*.cpp")]
    with cf.ThreadPoolExecutor(4) as ex:
        r = list(ex.map(lambda f: sh("g++ -O1 -std=gnu++14 -w -include cstring -DCATCH_CONFIG_NO_POSIX_SIGNALS -I %s/include -I %s/ext -c %s -o %s.o" % (d, d, f, f)), srcs))
    for c, out in r:
        if c: return "BUILD FAILS: " + out[:400]
    c, out = sh("g++ %s -o %s/colortest" % (" ".join(f + ".o" for f in srcs), d))
    if c: return "LINK FAILS: " + out[:300]
    sh("python3 /opt/vp/catch_run.py %s/colortest %s/test %s/res.txt" % (d, d, d))
    ok = {l[5:] for l in open(d + "/res.txt").read().split("\n") if l.startswith("PASS ")}
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [s for s in st if s not in ok]
    return "tests ok" if not bad else "TESTS FAIL: " + ", ".join(bad)


def one(i):
    d = S + "/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("git -C /repo archive HEAD | tar x -C " + d)
    sd = V + "/seeded/" + i
    meta = json.load(open(sd + "/meta.json"))
    demo = S + "/demo-" + i
    shutil.rmtree(demo, ignore_errors=True); os.makedirs(demo)
    for f in os.listdir(sd):
        if not f.endswith((".diff", ".json")): shutil.copy(sd + "/" + f, demo)
    msg = [i, meta["property"]]
    c, out = sh("bash %s/demo.sh" % demo, cwd=d); msg.append("demo clean %d" % c)
    if c: msg.append(out[:300])
    c, out = sh("git apply --unsafe-paths --directory=%s %s/patch.diff" % (d, sd), cwd="/") if False else sh("patch -p1 < %s/patch.diff" % sd, cwd=d)
    if c: msg.append("PATCH FAILS " + out[:200])
    if not o.notest: msg.append(tests(d))
    c, out = sh("bash %s/demo.sh" % demo, cwd=d); msg.append("demo bug %d%s" % (c, "" if c in (1, 66) else " " + out[-200:]))
    if not o.nocheck:
        for ch in (o.checks.split(",") if o.checks else [meta["property"]]):
            for s in o.seeds.split(","):
                c, out = sh("python3 %s/run.py %s --seed %s" % (V, ch, s), env=dict(os.environ, VERIF_REPO=d))
                msg.append("%s[%s]: %s" % (ch, s, {1: "caught", 0: "MISSED"}.get(c, "rc %d" % c)))
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
    print(" | ".join(msg), flush=True)


ids = o.ids or sorted(os.listdir(V + "/seeded"))
os.makedirs(S, exist_ok=True)
with cf.ThreadPoolExecutor(o.j) as ex:
    list(ex.map(one, ids))
shutil.rmtree(S, ignore_errors=True)
