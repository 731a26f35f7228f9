#!/usr/bin/env python3
"""Guarded mutants: a returned value is changed slightly, but only under a rarely met condition on the function's arguments.
Measures whether the workloads reach such conditions.  guarded.py N SEED OUT [first last]   (run from a copy of /verif)"""
import json, os, random, re, sys
sys.argv_saved = sys.argv
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
src = open("/repo/include/colorsystem.hpp").read()
lo, hi = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (20, 10 ** 9)
rnd = random.Random(SEED)
sys.path.insert(0, V + "/tools")

FUN = re.compile(r"\n[ \t]*(?:template[^\n]*\n)?[ \t]*((?:static |constexpr |const |inline )*)(float|double|Tristimulus|Matrix3|Vector3|Spectrum|Gamut|int|size_t|bool|Matrix|uint8_t|Pointer)[ &]+(\w+)\(([^()]*(?:\([^()]*\)[^()]*)*)\)( const)?[^;{}\n]*\n?[ \t]*\{")


def line(pos):
    return src.count("\n", 0, pos) + 1


def close(p):
    d = 0
    for i in range(p, len(src)):
        if src[i] == "{": d += 1
        elif src[i] == "}":
            d -= 1
            if d == 0: return i
    return -1


FCOND = ["%s == 0.f", "%s == 1.f", "%s > 90.f", "%s > 1e4f", "%s < -1.5f", "%s > 0.f && %s < 2e-5f", "%s > 0.7f && %s < 0.7003f", "%s < 0.f && %s > -1e-4f",
         "%s == (int)(%s)", "(%s > -1e-30f && %s < 1e-30f)", "%s == 0.5f", "%s > 0.99f && %s < 1.f", "%s > 1.f && %s < 1.01f", "%s == 0.25f", "%s == 100.f", "%s == 2.f", "%s > 1e-7f && %s < 1e-6f", "%s > 5e3f && %s < 5.01e3f"]
TCOND = ["%s[0] == %s[1]", "%s[1] == %s[2] && %s[0] != %s[1]", "%s[2] < 0.f && %s[0] > 0.f", "%s[0] > 50.f", "%s[1] == 0.f", "%s[0] == %s[1] && %s[1] == %s[2]",
         "%s[0] > 0.f && %s[0] < 1e-4f", "%s[0] == 1.f", "%s[2] == 0.f && %s[1] > 0.f", "%s[1] > %s[0] && %s[1] > %s[2] && %s[2] > 0.9f * %s[1]",
         "%s[0] < 0.f && %s[1] < 0.f && %s[2] < 0.f", "%s[1] > 1.f && %s[1] < 1.02f"]
MUT = {"float": ["(%s) * 1.002f", "(%s) + 0.003f", "-(%s)", "(%s) * 1.05f"], "double": ["(%s) * 1.002", "(%s) * 1.05"], "int": ["(%s) + 1"], "size_t": ["(%s) + 1"], "bool": ["!(%s)"],
       "uint8_t": ["(uint8_t)((%s) ^ 1)"], "Pointer": ["(%s) + 1"],
       "Tristimulus": ["Tristimulus((%s) * 1.002f)", "Tristimulus((%s) * Tristimulus(1.f, 1.f, 1.01f))", "Tristimulus((%s) + Tristimulus(0.f, 0.004f, 0.f))", "Tristimulus((%s) * Tristimulus(-1.f, 1.f, 1.f))"],
       "Matrix3": ["(%s).mul(1.002f)", "(%s).transpose()", "(%s).add(Matrix3(0, 0, 0, 0, 0, 0.004f, 0, 0, 0))"], "Vector3": ["Vector3((%s)[0], (%s)[1], (%s)[2] * 1.01f)", "Vector3((%s)[1], (%s)[0], (%s)[2])"],
       "Spectrum": ["mul(%s, 1.002f)"]}
cands = []
for m in FUN.finditer(src):
    ty, name, params = m.group(2), m.group(3), m.group(4)
    o = m.end() - 1
    l0 = line(m.start() + 1)
    if not (lo <= l0 <= hi) or ty not in MUT: continue
    e = close(o)
    ps = []
    for p in params.split(","):
        q = re.match(r"\s*(?:const )?(float|double|Tristimulus|Matrix3|Vector3|Spectrum|int|size_t)\s*&?\s*(\w+)\s*(?:=.*)?$", p)
        if q: ps.append((q.group(1), q.group(2)))
    if m.group(5) and "static" not in m.group(1) and not ps: pass
    if m.group(5): ps.append(("Self", "(*this)"))
    for r in re.finditer(r"\breturn ([^;]*);", src[o:e]):
        expr = r.group(1)
        for pt, pn in ps:
            if pt in ("float", "double"): cs = FCOND
            elif pt in ("Tristimulus", "Vector3", "Matrix3"): cs = TCOND
            elif pt == "Self" and ty in ("Tristimulus", "Matrix3", "float", "bool", "Vector3"): cs = TCOND
            else: continue
            for c in cs:
                cond = c.replace("%s", pn)
                t = rnd.choice(MUT[ty]).replace("%s", expr)
                cands.append((o + r.start(), o + r.end(), "return (%s) ? %s : %s;" % (cond, t, ("%s(%s)" % (ty, expr)) if ty[0].isupper() and ty != "Pointer" else expr), name, l0, cond))
rnd.shuffle(cands)
print(len(cands), "candidates", flush=True)
# reuse the runner of mutate.py
code = open(V + "/tools/mutate.py").read().split("def main():")[0]
ns = {"__file__": V + "/tools/mutate.py"}
sys.argv = ["mutate.py", "0", "1", OUT]
exec(compile(code, "mutate", "exec"), ns)
with open(OUT, "a") as f:
    for k, (s, e, t, name, l0, cond) in enumerate(cands[:N]):
        new = src[:s] + t + src[e:]
        r = ns["whole"](k, new, l0)
        r.update(line=l0, old=name + ": " + src[s:e][:120], new=t[:200])
        f.write(json.dumps(r) + "\n")
        f.flush()
