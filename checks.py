"""What each check builds and runs: legs are (build variant, processes, workload scale)."""
QUICK = [("rel", 4, 10.0), ("nd", 2, 10.0), ("san", 2, 1.5)]
MID = [("rel", 4, 5.0), ("nd", 2, 5.0), ("san", 2, 1.0)]  # costlier per case
DEEP = [("rel", 4, 60.0), ("nd", 2, 60.0), ("san", 2, 8.0), ("clang", 2, 4.0)]

FLOAT = "IEEE-754 single precision, round to nearest; results are compared with a double-precision reference within a " \
        "first-order rounding bound (K0 = 4 times) or the constant stated in DESIGN.md"
SANE = "g++ 13 / clang 18 sanitizer runtimes and valgrind memcheck are trusted to see what they document"


def chk(src, rule, quick=None, deep=None, **kw):
    kw.setdefault("assumptions", [FLOAT, SANE])
    return dict(src=src, rule=rule, legs=dict(quick=quick or QUICK, thorough=deep or DEEP), **kw)


def rule(case):
    return case + " Distinct: different operation or argument bits (hashed into a 2^25-bit map merged over processes); " \
                  "trivial cases, whose arguments are all 0 or 1, are not counted."


CHECKS = {
    "C01": chk("c01.cpp", rule("A case is a pair of 3x3 matrices, two vectors and a scalar (integers, log-uniform, sparse, permutation, triangular, rotation, aliased operands), or a crosstalk factor.")),
    "C02": chk("c02.cpp", rule("A case is two tristimulus values, a scalar and a clip interval, mixing any finite float, denormals, ties and ordinary colours.")),
    "C03": chk("c03.cpp", rule("A case is an XYZ, a Yxy or a Yuv triple: ordinary, dark, near-black, bright, negative, on the axes, y near 0.")),
    "C04": chk("c04.cpp", rule("A case is two sets of primaries and whites with a colour, or an ordered pair of built-in gamuts with a colour.")),
    "C05": chk("c05.cpp", rule("A case is three white points (published, near-neutral, chromatic, any luminance) and a colour.")),
    "C06": chk("c06.cpp", rule("A case is one published illuminant or gamut."), quick=[("rel", 1, 1.0), ("nd", 1, 1.0), ("san", 1, 1.0), ("o0", 1, 1.0)], deep=[("rel", 1, 1.0), ("nd", 1, 1.0), ("san", 1, 1.0), ("clang", 1, 1.0), ("o0", 1, 1.0)],
               exhaustive=dict(quick="all 12 illuminants and 10 gamuts", thorough="all 12 illuminants and 10 gamuts")),
    "C07": chk("c07.cpp", rule("A case is a curve, a gamma and a scene or code value: random, at ends and breakpoints, and a strided sweep of the float patterns of the domain."), quick=MID),
    "C08": chk("c08.cpp", rule("A case is a curve, a gamma and a scene or code value: random, at ends and breakpoints, outside the domain, and a strided sweep of the float patterns of the domain.")),
    "C09": chk("c09.cpp", rule("A case is a curve with an ordered pair of values (adjacent floats, across a breakpoint, random, far outside) or a triple of channel values."), quick=MID),
    "C10": chk("c10.cpp", rule("A case is an XYZ or Lab triple with a reference white.")),
    "C11": chk("c11.cpp", rule("A case is an XYZ or OKLAB triple.")),
    "C12": chk("c12.cpp", rule("A case is an XYZ or ICtCp triple.")),
    "C13": chk("c13.cpp", rule("A case is an RGB triple (ties, greys, corners, 8-bit values, HDR, negative) or an HSV triple with any finite hue.")),
    "C14": chk("c14.cpp", rule("A case is a pair of Lab colours with E00 weights, or a pair of XYZ colours."), quick=MID),
    "C15": chk("c15.cpp", rule("A case is a sampled curve (1 to 1000 samples, any range) resampled, or one wavelength fetched from it or from a spectrum.")),
    "C16": chk("c16.cpp", rule("A case is a triple of spectra with an observer, a single-bin spectrum, or a monochromatic wavelength."), quick=MID),
    "C17": chk("c17.cpp", rule("A case is one table entry, one observer response or one chart evaluation."), quick=[("rel", 1, 1.0), ("nd", 1, 1.0), ("san", 1, 0.5)], deep=[("rel", 2, 30.0), ("nd", 1, 10.0), ("san", 1, 4.0), ("clang", 1, 2.0)],
               exhaustive=dict(quick="all 133 tables of 400 entries", thorough="all 133 tables of 400 entries"),
               assumptions=[FLOAT, SANE, "the table entries are compared with a snapshot of the pinned commit (data/tables.bin); their physical plausibility and derived white points are checked independently of it"]),
    "C18": chk("c18.cpp", rule("A case is a temperature with a wavelength, a luminance or a distance from the locus.")),
    "C19": chk("c19.cpp", rule("A case is a system (m, n, matrix shape, right-hand side, tolerance) or a set of patches with targets."), quick=MID, deep=[("rel", 4, 30.0), ("nd", 2, 30.0), ("san", 2, 4.0), ("clang", 2, 2.0)]),
    "C20": chk("c20.cpp", rule("A case is one typed put, get, overwrite or raw read at a position and byte order within a stream history."), quick=MID),
    "C21": chk("c21.cpp", rule("A case is one operation, its arguments and the stream's size and position within a history.")),
    "C22": chk("c22.cpp", rule("A case is one public operation with its generator state: ordinary and hostile arguments."),
               quick=[("san", 4, 0.3), ("clang", 3, 0.3), ("vg", 1, 0.02), ("rel", 1, 0.3), ("nd", 1, 0.3)], deep=[("san", 4, 10.0), ("clang", 4, 10.0), ("vg", 4, 0.1), ("rel", 2, 10.0), ("nd", 2, 10.0)],
               assumptions=[SANE, "documented preconditions are respected (see DESIGN.md, 'Preconditions')"]),
    "C23": chk("c23.cpp", rule("A case is one public operation with its generator state, evaluated under every surrounding (order, repetition, painted stack and heap, threads, fresh process)."),
               quick=[("rel", 3, 2.0), ("nd", 1, 2.0), ("o0", 2, 1.0), ("tsan", 2, 1.5)], deep=[("rel", 4, 20.0), ("nd", 2, 20.0), ("o0", 2, 8.0), ("tsan", 4, 15.0)],
               assumptions=[SANE, "thread schedules are those the kernel and ThreadSanitizer produce"]),
    "C24": chk("c24.cpp", rule("A case is a float pattern; the sweep visits a residue class of all non-negative finite patterns."), quick=[("rel", 6, 5.0), ("nd", 2, 2.0), ("san", 2, 1.0)], deep=[("rel", 6, 60.0), ("nd", 2, 10.0), ("san", 2, 8.0), ("clang", 2, 4.0)],
               exhaustive=dict(thorough="every non-negative finite float pattern (the rel processes together visit all of them)")),
    "C25": chk("c25.cpp", rule("A case is one call with its argument seed, evaluated in a constant expression and at run time, or before main, after it and in another translation unit."),
               quick=[("rel", 2, 1.0), ("nd", 1, 1.0), ("o0", 1, 1.0), ("san", 2, 0.5), ("clang", 1, 0.5)], deep=[("rel", 4, 10.0), ("nd", 2, 10.0), ("o0", 2, 5.0), ("san", 2, 4.0), ("clang", 2, 4.0)],
               extra=["c25_tu.cpp"], ct=dict(src="c25_ct.cpp", n=dict(quick=240, thorough=1500)),
               assumptions=[SANE, "g++ 13 in C++17 mode evaluates the constant expressions; it folds powf, which other compilers may refuse"]),
}
