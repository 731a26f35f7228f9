#!/usr/bin/env python3
"""Mutation campaign in scratch copies: random small changes of the header's code (not its tables), one at a time; reports
which check notices each. Run from a copy of /verif:  mutate.py N SEED OUT [first-line last-line]"""
import concurrent.futures as cf, os, random, re, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/include/colorsystem.hpp"
lines = open(SRC).read().split("\n")
RANGES = [(20, 1560), (6150, 6160), (7280, len(lines))]
if len(sys.argv) > 5:
    RANGES = [(int(sys.argv[4]), int(sys.argv[5]))]
rnd = random.Random(int(sys.argv[2]))


def isnum(l):
    return len(re.findall(r"\d\.?\d*(e-?\d+)?f?,", l)) > 8 and not re.search(r"[A-Za-z_]{3,}", l)


def mutations(l):
    out = []
    code = l.split("//")[0]
    for m in re.finditer(r"(?<![\w.])(\d+\.\d+(?:[eE][-+]?\d+)?)(f?)", code):
        x = float(m.group(1))
        for nx in (x * (1 + rnd.choice([1e-3, -1e-3, 0.02])), x + 1, 0.0 if x else 1.0, -x):
            out.append((m.start(), m.end(), "%r%s" % (float(nx), m.group(2))))
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
        x = int(m.group(1))
        for nx in (x + 1, max(0, x - 1)):
            if nx != x:
                out.append((m.start(), m.end(), str(nx)))
    for a, bs in ((" + ", [" - "]), (" - ", [" + "]), (" * ", [" / ", " + "]), (" / ", [" * "]), (" < ", [" <= ", " > "]), (" > ", [" >= ", " < "]),
                  (" <= ", [" < "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]), (" && ", [" || "]), (" || ", [" && "]), ("++", ["--"]),
                  ("+=", ["-=", "="]), (" = -", [" = "]), ("(-", ["("]), (" ? ", [" ? 0 * "]), ("min", ["max"]), ("max", ["min"]), ("BIG", ["LITTLE"]),
                  ("fabs", [""]), ("powf(", ["sqrtf("]), ("cosf", ["sinf"]), ("sinf", ["cosf"]), ("float ", ["static float "]), ("const auto", ["static const auto"]),
                  ("const float ", ["static const float "]), ("<< ", [">> "]), (">> ", ["<< "]), (" | ", [" ^ ", " & "]), ("[0]", ["[1]"]), ("[1]", ["[2]"]), ("[2]", ["[0]"])):
        i = code.find(a)
        while i >= 0:
            for b in bs:
                out.append((i, i + len(a), b))
            i = code.find(a, i + 1)
    if re.match(r"\s+[\w\[\]().>-]+( [+*/-]?=|\(|\+\+).*;\s*$", code) and "return" not in code and "static" not in code:
        out.append((0, len(code), "    ;"))
    return out


cand = []
for a, b in RANGES:
    for n in range(a, min(b, len(lines))):
        l = lines[n]
        if isnum(l) or l.strip().startswith(("//", "#", "*", "/*", "static constexpr Tristimulus Illum")):
            continue
        for s, e, t in mutations(l):
            cand.append((n, s, e, t))
LEGS = {"C22": "san:1:0.1,vg:1:0.004", "C23": "rel:1:0.5", "C06": "rel:1:1", "C17": "rel:1:1"}
CHECKS = ["C%02d" % i for i in range(1, 25)]


def one(k, mut):
    n, s, e, t = mut
    l = lines[n]
    new = l[:s] + t + l[e:]
    ls = list(lines)
    ls[n] = new
    r = whole(k, "\n".join(ls), n)
    r.update(line=n + 1, old=l.strip(), new=new.strip())
    return r


def whole(k, text, n):
    d = "/tmp/mut/%d.%d" % (os.getpid(), k)
    os.makedirs(d + "/include", exist_ok=True)
    open(d + "/include/colorsystem.hpp", "w").write(text)
    r = dict(killed=[], nobuild=False, odd=[])
    if subprocess.run(["g++", "-std=gnu++17", "-w", "-fsyntax-only", "-I", d + "/include", "-include", "cstring", "-include", "cstdint", "-x", "c++", d + "/include/colorsystem.hpp"], capture_output=True).returncode:
        r["nobuild"] = True
    else:
        def run(c):
            if r["killed"]:
                return
            p = subprocess.run([sys.executable, V + "/run.py", c, "--legs", LEGS.get(c, "rel:2:1.0")], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            if p.returncode == 1:
                r["killed"].append(c)
            elif p.returncode:
                r["odd"].append(c + ": " + p.stdout[-300:])
        order = CHECKS[:]
        if n > 7300: order = ["C19", "C22", "C23"] + order
        elif n > 1495: order = ["C16", "C17", "C23"] + order
        elif n > 1425: order = ["C14", "C11", "C12"] + order
        elif n > 1215: order = ["C15", "C18", "C16", "C11", "C12"] + order
        elif n > 785: order = ["C20", "C21", "C22"] + order
        elif n > 555: order = ["C07", "C08", "C09", "C04"] + order
        elif n > 490: order = ["C04", "C05"] + order
        order = list(dict.fromkeys(order))
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(run, order))
    shutil.rmtree(d, ignore_errors=True)
    return r


def main():
    n, out = int(sys.argv[1]), sys.argv[3]
    rnd.shuffle(cand)
    print(len(cand), "candidates", flush=True)
    with open(out, "a") as f:
        for k, m in enumerate(cand[:n]):
            r = one(k, m)
            f.write(json.dumps(r) + "\n")
            f.flush()


main()
