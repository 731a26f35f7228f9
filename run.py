#!/usr/bin/env python3
"""Runs one check: builds its harness from /repo's current header, runs the monitored workload in several processes
and sanitizer builds, merges what they observed, writes evidence/<id>.json and decides.

  run.py C05                  tier and seed from VERIF_TIER / VERIF_SEED (quick, 1)
  run.py C05 --tier thorough --seed 7
  run.py --replay out/C05.replay.json      re-runs the recorded process

exit 0: the property held on everything observed; exit 1 and a VIOLATION line: broken; exit 2: no verdict.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

WARN = ["-w", "-pthread"]
COMMON = ["-std=gnu++17", "-I", VERIF + "/harness"]
VARIANTS = {
    # name: (compiler, flags, environment)
    "rel": ("g++", ["-O2"], {}),
    "nd": ("g++", ["-std=gnu++14", "-O3", "-DNDEBUG"], {}),  # assertions off, other optimisations, the standard of the test suite
    "o0": ("g++", ["-O0", "-fno-builtin"], {}),
    "san": ("g++", ["-O1", "-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                    "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DVSAN"],
            {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=6000"
                             ":allocator_may_return_null=0:strict_string_checks=1",
             "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1"}),
    "clang": ("clang++", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                          "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DVSAN"],
              {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=6000",
               "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1"}),
    "vg": ("g++", ["-O1", "-g", "-fno-builtin", "-DVVG"], {}),  # under valgrind memcheck: uninitialised values
    "tsan": ("g++", ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DVSAN", "-DVTSAN"],
             {"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1"}),
}
OPTIONAL = {"clang"}  # a second compiler: a build it alone refuses costs that leg, not the verdict


def log(*a):
    print(*a, flush=True)


def compile_(cmd):
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return False, "compiler timeout"
        if p.returncode == 0:
            return True, ""
    errs = [x for x in p.stdout.splitlines() if "error:" in x]
    return False, ("\n".join(errs[:6]) + "\n" + p.stdout)[:3000]


def build(prop, variant, tmp):
    cxx, flags, _ = VARIANTS[variant]
    exe = os.path.join(tmp, f"{prop}.{variant}")
    inc = ["-I", REPO + "/include"]
    srcs = [CHECKS[prop]["src"]] + CHECKS[prop].get("extra", [])
    srcs = [os.path.join(VERIF, "harness", x) for x in srcs]
    if not CHECKS[prop].get("ct"):
        ok, err = compile_([cxx] + COMMON + inc + flags + WARN + srcs + ["-o", exe])
        return (exe, "") if ok else (None, err)
    objs, jobs = [], []
    for x in srcs:
        o = os.path.join(tmp, variant + "." + os.path.basename(x) + ".o")
        objs.append(o)
        jobs.append([cxx] + COMMON + inc + flags + WARN + ["-c", x, "-o", o])
    with cf.ThreadPoolExecutor(4) as ex:
        for ok, err in ex.map(compile_, jobs):
            if not ok:
                return None, err
    ok, err = compile_([cxx] + flags + WARN + objs + [os.path.join(tmp, "ct.o"), "-o", exe])
    return (exe, "") if ok else (None, err)


def build_ct(prop, tier, seed, tmp):
    """The constant expressions of C25. No optimiser or sanitizer option matters for what they are; the total work of a
    table is the harness's own choice, so only that limit is lifted (not depth or loop count)."""
    c = CHECKS[prop]["ct"]
    cmd = ["g++"] + COMMON + ["-I", REPO + "/include", "-O1", "-w", "-fconstexpr-ops-limit=4000000000", "-DCT_SEED=%du" % (seed % 4000000000),
                              "-DCT_N=%d" % c["n"][tier], "-c", os.path.join(VERIF, "harness", c["src"]), "-o", os.path.join(tmp, "ct.o")]
    return compile_(cmd)


def EMPTY():
    return {"violations": [], "evaluations": 0, "monitors": {}, "classes": {}, "required": {}, "samples": [],
            "trivial": 0, "skipped": 0, "status": "crashed", "last": ""}


def job_cmd(exe, j, tmp, out):
    scratch = os.path.join(tmp, "scratch.%s.%d" % (j["variant"], j["shard"]))
    os.makedirs(scratch, exist_ok=True)
    pre = ["valgrind", "-q", "--error-exitcode=99", "--num-callers=20", "--exit-on-first-error=yes"] if j["variant"] == "vg" else []
    return pre + [exe, "--seed", str(j["seed"]), "--shard", str(j["shard"]), "--shards", str(j["shards"]), "--scale",
            repr(j["scale"]), "--tier", j["tier"], "--out", out, "--data", VERIF + "/data", "--scratch", scratch,
            "--variant", j["variant"]]


def cpu_ticks(pid):
    """CPU time used by the process and its ended and running children; None-like -2 when it cannot be read."""
    tot = 0
    todo = [pid]
    while todo:
        q = todo.pop()
        try:
            f = open("/proc/%d/stat" % q).read().rsplit(")", 1)[1].split()
            if f[0] in "RD":
                return time.time()  # runnable: not asleep
            tot += sum(int(x) for x in f[11:15])
            for t in os.listdir("/proc/%d/task" % q):
                st = open("/proc/%d/task/%s/stat" % (q, t)).read().rsplit(")", 1)[1].split()[0]
                if st in "RD":
                    return time.time()
                todo += [int(x) for x in open("/proc/%d/task/%s/children" % (q, t)).read().split()]
        except (OSError, IndexError, ValueError):
            pass
    return tot


def run_job(exe, j, tmp, timeout, stop):
    out = os.path.join(tmp, "res.%s.%d.json" % (j["variant"], j["shard"]))
    env = dict(os.environ)
    env.update(VARIANTS[j["variant"]][2])
    env["LC_ALL"] = "C"
    res = {"job": j, "kind": "inconclusive", "why": "", "log": "", "data": None}
    for f in (out, out + ".bits"):
        if os.path.exists(f):
            os.unlink(f)
    logf = out + ".log"
    t0 = time.time()
    try:
        with open(logf, "wb") as lf:
            p = subprocess.Popen(job_cmd(exe, j, tmp, out), stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=env,
                                 cwd=tmp, start_new_session=True)
            rc, idle, ticks = None, 0.0, -1
            while rc is None:
                try:
                    rc = p.wait(timeout=1)
                except subprocess.TimeoutExpired:
                    now = cpu_ticks(p.pid)
                    idle = idle + 1 if now == ticks else 0
                    ticks = now
                    why = None
                    if stop.is_set():
                        why = "stopped: another process reported a violation"
                    elif time.time() - t0 > timeout:
                        why = f"wall-clock limit of {timeout:.0f}s"
                    elif idle >= 60:
                        why = "asleep"
                    if why:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        res["why"] = why
                        if why == "asleep":
                            res["kind"], res["data"] = "hang", EMPTY()
                            res["data"]["violations"] = ["[hang] every thread of the process slept for 60 s (deadlock)"]
                        return res
    except OSError as e:
        res["why"] = str(e)
        return res
    res["wall"] = time.time() - t0
    with open(logf, "rb") as lf:
        res["log"] = lf.read(200000).decode("utf-8", "replace")
    if os.path.exists(out):
        try:
            res["data"] = json.load(open(out))
        except ValueError:
            res["data"] = None
    d = res["data"]
    if d and rc == 0 and d["status"] == "held":
        res["kind"] = "held"
    elif d and d["violations"]:
        res["kind"] = "hang" if d["status"] == "hang" else "violated"
    elif j["variant"] == "vg" and rc == 99:
        res["kind"] = "violated"
        res["data"] = d or EMPTY()
        res["data"]["violations"] = ["[valgrind] " + res["log"][:1500]]
    elif rc == -signal.SIGKILL:
        res["why"] = "killed"
    elif rc < 0 or re.search(r"Sanitizer|runtime error:|Assertion .* failed|terminate called", res["log"]):
        res["kind"] = "violated"
        res["data"] = EMPTY()
        res["data"]["violations"] = ["[crash] process ended with status %d: %s" % (rc, res["log"][-1500:])]
    else:
        res["why"] = "exit status %d without a report: %s" % (rc, res["log"][-500:])
    return res


def known(prop, text):
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
        if m and m.group(1) == prop and re.search(m.group(2), text):
            return m.group(3)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--legs", default="")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "clang++", "valgrind"):
            log(t, "found" if shutil.which(t) else "missing")
        for d in ("out", "evidence"):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        return 0 if shutil.which("g++") else 2
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.tier, a.seed, only = r["property"], r["job"]["tier"], r["job"]["seed"], r["job"]
    prop = a.prop
    if prop not in CHECKS:
        log("unknown property", prop)
        return 2
    c = CHECKS[prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    if not only and os.path.exists(ev_path):
        os.unlink(ev_path)
    tmp = tempfile.mkdtemp(prefix="vchk.%s." % prop)
    try:
        legs = c["legs"][tier]
        if a.legs:
            legs = [(x.split(":") + ["1", "1"])[:3] for x in a.legs.split(",")]
            legs = [(v, int(n), float(k)) for v, n, k in legs]
        jobs = []
        for variant, shards, scale in legs:
            for s in range(shards):
                jobs.append(dict(variant=variant, shard=s, shards=shards, scale=scale * a.scale, tier=tier, seed=a.seed))
        if only:
            jobs = [only]
        variants = sorted({j["variant"] for j in jobs})
        notes, exes = [], {}
        if c.get("ct"):
            ok, err = build_ct(prop, tier, a.seed, tmp)
            if not ok:
                # the same calls compile as ordinary code: then it is the constant expressions that are refused
                plain, perr = compile_(["g++"] + COMMON + ["-I", REPO + "/include", "-w", "-fsyntax-only", os.path.join(VERIF, "harness", c["src"])])
                if not plain or "error:" not in err:
                    log(f"build of {prop} failed:\n{perr or err}")
                    return 2
                ev = dict(property=prop, tier=tier, seed=a.seed, level="exploration", violations=1, wall_s=round(time.time() - t0, 2),
                          assumptions=c.get("assumptions", []),
                          coverage=dict(evaluations=0, distinct_nontrivial=0, rule=c["rule"], samples=["refused constant expression: " + err[:600]]))
                if not only:
                    json.dump(ev, open(ev_path, "w"), indent=1)
                rp = os.path.join(outdir, prop + ".replay.json")
                job = dict(variant="rel", shard=0, shards=1, scale=1.0, tier=tier, seed=a.seed)
                json.dump(dict(property=prop, job=job, violations=["[constant expression] " + err], rerun=f"python3 {VERIF}/run.py --replay {rp}"),
                          open(rp, "w"), indent=1)
                log("  a constant expression is refused:", err[:1500])
                log(f"VIOLATION property={prop} replay={rp}")
                return 1
        with cf.ThreadPoolExecutor(8) as ex:
            for v, (exe, err) in zip(variants, ex.map(lambda v: build(prop, v, tmp), variants)):
                if exe:
                    exes[v] = exe
                elif v in OPTIONAL:
                    notes.append(f"{v} build not available: {err[:300]}")
                    log(f"note: {v} leg left out (build failed)")
                else:
                    log(f"build of {prop} ({v}) failed:\n{err}")
                    return 2
        jobs = [j for j in jobs if j["variant"] in exes]
        deadline = t0 + (780 if tier == "quick" else 12 * 3600)
        stop = threading.Event()

        def once(j):
            for attempt in (1, 2):
                r = run_job(exes[j["variant"]], j, tmp, max(5, deadline - time.time()), stop)
                if r["kind"] not in ("inconclusive", "hang") or stop.is_set():  # those: once more before they count
                    break
            if r["kind"] == "hang" and attempt == 1:
                r["kind"], r["data"] = "inconclusive", None
            if r["kind"] == "violated" and any(not known(prop, v) for v in r["data"]["violations"]):
                stop.set()
            return r

        # heavy legs first
        jobs.sort(key=lambda j: j["variant"] == "rel")
        with cf.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(once, jobs))

        viol, knowns, incon = [], set(), []
        tot = dict(evaluations=0, trivial=0, skipped=0)
        mons, classes, required, samples, bits, perleg = {}, {}, {}, [], 0, {}
        for r in results:
            j = r["job"]
            if r["kind"] == "inconclusive":
                incon.append(f"{j['variant']}/{j['shard']}: {r['why']}")
            d = r["data"]
            if not d:
                continue
            if a.v:
                log(j["variant"], j["shard"], r["kind"], "%.1fs" % r.get("wall", 0), d["evaluations"])
            for k in tot:
                tot[k] += d[k]
            perleg[j["variant"]] = perleg.get(j["variant"], 0) + d["evaluations"]
            for k, m in d["monitors"].items():
                mons[k] = mons.get(k, 0) + m["checks"]
            for k, n in d["classes"].items():
                classes[k] = classes.get(k, 0) + n
            for k, n in d["required"].items():
                required[k] = max(required.get(k, 0), n)
            samples += d["samples"][:4]
            bf = os.path.join(tmp, "res.%s.%d.json.bits" % (j["variant"], j["shard"]))
            if os.path.exists(bf):
                bits |= int.from_bytes(open(bf, "rb").read(), "little")
            for v in d["violations"]:
                k = known(prop, v)
                if k:
                    knowns.add(k)
                else:
                    viol.append((v, r))
        distinct = bits.bit_count() if hasattr(bits, "bit_count") else bin(bits).count("1")
        missing = [] if only else [f"{k}: {classes.get(k, 0)} < {n}" for k, n in required.items() if classes.get(k, 0) < n]
        cov = dict(evaluations=tot["evaluations"], distinct_nontrivial=distinct, rule=c["rule"],
                   samples=samples[:16] or ["none"], monitor_checks=mons, observed_classes=classes,
                   evaluations_per_build=perleg, trivial_cases=tot["trivial"],
                   comparisons_skipped_out_of_float_range=tot["skipped"])
        if c.get("exhaustive", {}).get(tier):
            cov["exhaustive_note"] = c["exhaustive"][tier]
        ev = dict(property=prop, tier=tier, seed=a.seed, level="exploration", coverage=cov,
                  assumptions=c.get("assumptions", []) + notes, wall_s=round(time.time() - t0, 2), violations=len(viol))
        if not only:
            json.dump(ev, open(ev_path, "w"), indent=1)
        for k in sorted(knowns):
            log(f"KNOWN-FINDING: property={prop} {k}")
        if viol:
            v, r = viol[0]
            rp = os.path.join(outdir, prop + ".replay.json")
            json.dump(dict(property=prop, job=r["job"], violations=[x for x, _ in viol][:20], log=r["log"][-6000:],
                           rerun=f"python3 {VERIF}/run.py --replay {rp}"), open(rp, "w"), indent=1)
            for x, rr in viol[:6]:
                log(f"  {rr['job']['variant']}/{rr['job']['shard']}: {x[:600]}")
            m = re.search(r"(ERROR: \w*Sanitizer.*|.*runtime error:.*|WARNING: ThreadSanitizer.*|.*Assertion .*failed.*)", r["log"])
            if m:
                log("  " + m.group(1)[:400])
            log(f"VIOLATION property={prop} replay={rp}")
            return 1
        if incon:
            log("no verdict:", "; ".join(incon))
            return 2
        if missing and not a.legs:
            log("no verdict: too little observed:", "; ".join(missing))
            return 2
        if not tot["evaluations"]:
            log("no verdict: nothing was observed")
            return 2
        log(f"{prop}: held; {tot['evaluations']} evaluations, {distinct} distinct, {sum(mons.values())} monitor checks, "
            f"{ev['wall_s']}s")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
