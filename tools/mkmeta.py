#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = ["include/colorsystem.hpp"]


def P(id, title, statement, over, text, why, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, observe=observe,
                technique=technique, note=note)


REF = "runtime monitor with a double-precision reference and an error-bound oracle; release and ASan/UBSan builds"
EXP = "Exploration: every monitored execution agreed with the oracle; inputs not generated are not covered. Trusts the " \
      "harness's reference formulas, the libm of the sandbox and the sanitizer runtimes."

PROPS = [
P("C01", "3x3 matrix and vector algebra is exact to rounding",
  "For all finite matrices and vectors the products, sums, scalar multiples and quotients, transpose, rows, columns, diagonal, determinant and dot products equal the textbook values up to single-precision rounding, in member and static form alike. For every matrix of condition number below about 1e6 the inverse is the true inverse, and crosstalk matrices and their inverses are as defined for every factor other than 1/3. Operands are never modified and may alias.",
  ["inputs"], "all finite 3x3 matrices, 3-vectors and scalars whose results stay in float range",
  "The tests multiply a couple of colour matrices; they never invert matrices with negative determinants, permutations, sparse or badly scaled entries, nor compare overloads.",
  [("Matrix3::mul/apply/invert/det/transpose/crosstalk", "class Matrix3"), ("Vector3::dot", "class Vector3")],
  ["Matrix3 and Vector3 public members"], REF, EXP),
P("C02", "Tristimulus arithmetic, min/max and clipping",
  "For all finite triples, addition, channel-wise product, scaling, division, dot product and matrix application act channel by channel with the textbook value; element-wise and three-way minimum and maximum are exact, and clipping returns for each channel the value itself when inside the bounds and otherwise the bound it crossed, and is idempotent. Removing negatives zeroes exactly the negative channels, and the negativity test is true exactly when some channel is below zero.",
  ["inputs"], "all finite triples, scalars and ordered clip bounds, ties, denormals and extremes included",
  "No test exercises ties between channels, degenerate bounds, values on a bound, denormals or each ordering of the three channels.",
  [("Tristimulus arithmetic and min/max/clip/positive", "class Tristimulus")], ["Tristimulus public members"], REF, EXP),
P("C03", "XYZ, Yxy and Yuv are interchangeable",
  "For every XYZ whose sum is not negligible, conversion to Yxy gives x = X/S and y = Y/S and keeps Y, conversion to Yuv gives the CIE 1960 coordinates, and both convert back to the same XYZ; chromaticity does not depend on scale. A colour with |X+Y+Z| below 1e-8 gets the D65 chromaticity (0.3127, 0.3290), and a Yxy with |y| below 1e-8 becomes X = Z = 0 with Y kept. All overloads of a conversion agree.",
  ["inputs"], "all finite XYZ, Yxy and Yuv triples, negative and near-black ones included, away from vanishing denominators",
  "Tests convert a few white points; the near-black and y = 0 branches, negative coordinates and very dark or bright colours are not sampled.",
  [("toYxy/fromYxy/toYuv/fromYuv and the *_from_* helpers", "class Tristimulus")], ["Tristimulus conversions"], REF, EXP),
P("C04", "A gamut maps RGB to XYZ as its primaries and white demand",
  "For every gamut built from non-degenerate primaries and a white, RGB (1,1,1) maps to the white at Y = 1, each unit RGB maps to the chromaticity of its primary, the primaries and white are recovered by the accessors, and RGB to XYZ and XYZ to RGB are mutually inverse linear maps. Converting a colour between any two gamuts leaves its XYZ unchanged and converting to the same gamut is the identity. A gamut built from a matrix uses that matrix as XYZ to RGB and its inverse as RGB to XYZ, keeps its name, and its accessors report the chromaticities of unit RGB and the XYZ of RGB (1,1,1).",
  ["inputs", "configurations"], "all primaries spanning a triangle of reasonable area, primaries with negative y included, all colours, all ordered pairs of built-in gamuts",
  "Tests use a few built-in gamuts and colours; imaginary primaries, random whites and pairs are not covered.",
  [("Gamut constructors, toXYZ/fromXYZ, primary*, fromPrimaries", "class Gamut"), ("GamutConvert", "free function")], ["Gamut public members", "GamutConvert"], REF, EXP),
P("C05", "Bradford adaptation carries one white to the other",
  "For all pairs of white points with positive cone responses, the adaptation matrix is the published Bradford transform: it maps the source white exactly onto the destination white, is the identity for equal whites, is undone by the reverse adaptation, composes through any third white, and does not change when both whites are scaled alike.",
  ["inputs"], "all pairs and triples of white points with positive Bradford cone responses, of any luminance",
  "The tests adapt between two illuminants; chromatic whites, unequal luminance and composition are not sampled.",
  [("Bradford", "free function"), ("Matrix3 products and inverse", "class Matrix3")], ["Bradford"], REF, EXP),
P("C06", "Built-in illuminants and gamuts have their published values",
  "Each of the twelve named illuminants has its published (ASTM E308 / CIE 15, ACES for D60) tristimulus values with Y = 1, and each named gamut has its published primaries, white point and name; the cone-space gamut is the Bradford cone matrix and the XYZ gamut is the identity.",
  ["configurations"], "all 12 illuminants and 10 gamuts shipped with the library",
  "The tests look at a handful of them through the behaviour of other functions, and illuminant B was wrong for years.",
  [("Illuminant_* constants", "namespace scope"), ("AdobeRGB ... XYZ gamut constants", "namespace scope")], ["the constants"], "runtime conformance monitor over every shipped constant (exhaustive)",
  "Exploration, exhaustive over the shipped constants, to about 1e-5. Trusts the published values copied into the harness."),
P("C07", "Encoding then decoding returns the original value",
  "For every transfer function and every value of its domain, decoding an encoded scene value and encoding a decoded code value give back the original, within the precision of single-precision arithmetic at that code; this holds through the scalar functions and through the type-selected colour functions, for every gamma from 0.4 to 4.",
  ["inputs", "configurations"], "all float values of the domain of each of the nine curves, all gammas",
  "The tests round-trip a few values of a few curves; S-Log3 was wrong over its whole linear segment and no test noticed.",
  [("OTF::toScreen/toScene and the Y_to_*, *_to_Y pairs", "class OTF")], ["OTF public functions"], REF, EXP),
P("C08", "Each transfer function is the published curve",
  "For every value of its domain each transfer function equals the published formula (gamma, sRGB, BT.709, ST 2084, S-Log, S-Log2, S-Log3, HLG) up to single-precision noise, on both sides of every breakpoint. Outside its domain it behaves as specified: sRGB and BT.709 clamp to 0..1, ST 2084 encoding clamps to 0 and 1, S-Log encoding clamps scene values to 0..10, HLG maps negatives to 0, S-Log2 decoding never goes below 0, S-Log2 and S-Log3 encoding continue linearly below black, the decoding formulas of the log curves and HLG continue beyond full code (S-Log and S-Log3 below zero too), and the linear type is the identity.",
  ["inputs"], "all finite inputs of each curve, breakpoints and out-of-range values included",
  "The tests compare a few code values; segments, breakpoints and clamps are not swept.",
  [("OTF::Y_to_* and *_to_Y", "class OTF")], ["OTF public functions"], REF, EXP),
P("C09", "Transfer functions are monotone, finite, per-channel and rightly selected",
  "Every transfer function is non-decreasing (strictly so between values that single precision resolves), finite and within its signal range over its whole domain. The colour forms apply the curve of the selected type to each channel independently of the other channels and of its position, with a default parameter of one that matters to the gamma type only.",
  ["inputs", "configurations"], "all ordered pairs of values, all channel triples and all types",
  "Tests evaluate isolated points: order, breakpoints crossed the wrong way and channel mix-ups need pairs of evaluations.",
  [("OTF::toScreen/toScene dispatch", "class OTF"), ("the scalar curves", "class OTF")], ["OTF public functions"], "runtime monitor of order, range and metamorphic relations between evaluations; release and ASan/UBSan builds", EXP),
P("C10", "CIELAB conversion and its inverse",
  "For every XYZ not exceeding the reference white and every white, conversion to CIELAB is the CIE 1976 formula (cube root above 216/24389, linear below) and conversion back returns the XYZ; every Lab whose XYZ stays below white round-trips as well. White maps to (100,0,0), black to (0,0,0), multiples of white have a = b = 0, channels above white count as white, and the default white is D50.",
  ["inputs"], "all XYZ and Lab triples and all positive reference whites",
  "The tests convert a few patches under one white; the linear segment, the join, other whites and saturation are not sampled.",
  [("toCIELAB/fromCIELAB, CIELAB_curve/decurve", "class Tristimulus")], ["Tristimulus::toCIELAB, fromCIELAB"], REF, EXP),
P("C11", "OKLAB conversion and its inverse",
  "For every XYZ, negative cone responses included, conversion to OKLAB is Ottosson's published transform and conversion back returns the XYZ; every OKLAB triple round-trips through XYZ as well. D65 neutrals have a = b = 0, and multiplying XYZ by k cubed multiplies OKLAB by k.",
  ["inputs"], "all finite XYZ and OKLAB triples of photographic magnitude",
  "The test compares three decimals of four colours and let a wrong sign in a matrix through.",
  [("XYZ_to_OKLAB, OKLAB_to_XYZ", "free functions")], ["XYZ_to_OKLAB, OKLAB_to_XYZ"], REF, EXP),
P("C12", "ICtCp conversion and its inverse",
  "For every XYZ, conversion to ICtCp is the Dolby/BT.2100 PQ transform with 1.0 meaning 100 cd/m2 and cone responses clamped to 0..10000 cd/m2, and is finite; within that range conversion back returns the XYZ and every valid ICtCp round-trips. Black maps to (0,0,0) and D65 neutrals have almost no Ct and Cp.",
  ["inputs"], "all XYZ triples, and all ICtCp triples whose PQ codes lie in 0..1",
  "There is no test of ICtCp at all.",
  [("XYZ_to_ICtCp, ICtCp_to_XYZ", "free functions"), ("OTF::Y_to_ST2084", "class OTF")], ["XYZ_to_ICtCp, ICtCp_to_XYZ"], REF, EXP),
P("C13", "HSV conversion, hue reduction and their inverses",
  "For every RGB with a positive largest channel and for black, HSV has value = the largest channel, saturation = (max - min)/max (0 for black) and the hexagonal hue in 0..360 (0 for greys), and converts back to the same RGB; the arctangent variant has the same saturation and value and the chroma-plane angle. For every finite hue, any number of turns in either direction, HSV to RGB is the standard transform, depends on the hue modulo 360 only, and terminates.",
  ["inputs"], "all RGB triples including ties, greys, negative and HDR values, all finite hues",
  "There is no HSV test; hue reduction looped for ever on large hues.",
  [("toHSV, toHSV_atan, fromHSV, mod360", "class Tristimulus")], ["Tristimulus HSV functions"], REF, EXP),
P("C14", "Colour differences are the published metrics",
  "For all pairs of Lab colours the 1976 difference is the Euclidean distance, the uv difference the distance of the last two coordinates and the 2000 difference is CIEDE2000 with its weights (Sharma's published pairs included); for all pairs of XYZ colours the ICtCp difference is the distance with Ct halved. Each is finite, non-negative, zero for equal colours, symmetric, and the Euclidean ones obey the triangle inequality.",
  ["inputs"], "all pairs of Lab colours of chroma up to 120 with any positive weights, all pairs of XYZ colours",
  "The tests compare a few pairs; hue wrap-around, the blue rotation term, achromatic operands and weights are not sampled.",
  [("Delta::E76, E00, UV, ICtCp", "class Delta")], ["Delta public functions"], REF, EXP),
P("C15", "Spectrum sampling interpolates linearly with clamped ends",
  "A spectrum built from any number of samples over any wavelength range has at each of its 400 bins (380..779 nm, 1 nm) the linear interpolation of the samples, and outside their range the nearest end sample; fetching any wavelength from a sample table or a spectrum follows the same rule, reproduces the samples at their own wavelengths, never leaves the range of the two neighbouring samples and never reads outside the table. Bins given directly are stored unchanged and a default spectrum is zero.",
  ["inputs"], "all sample counts from 1, all ranges, all wavelengths including infinite ones",
  "The tests build spectra from one table and look at a few bins; the first interval was extrapolated wrongly unnoticed.",
  [("Spectrum constructors, fetch, lerp", "class Spectrum")], ["Spectrum public members"], "runtime monitor with a piecewise-linear reference on exactly sized heap tables; release and ASan/UBSan builds", EXP),
P("C16", "Spectrum algebra and observers integrate every bin once",
  "For all spectra, sum, product, scaling, total and dot products are bin-wise exact to rounding, and every observer, built in or custom, maps emission (and reflectance under a light) to the colour-matching integrals over all 400 bins divided by the integral of the matching function, so that equal energy gives (1,1,1) and the map is linear. Monochromatic flux and radiance convert with 683 lm/W times the interpolated matching function, clamped at the ends of the range.",
  ["inputs", "configurations"], "all spectra (single bins, bands, noise, negative), all observers, all wavelengths",
  "The tests integrate one or two lights; a bin lost or shifted changes the result too little for them.",
  [("Spectrum::add/mul/sum/dot/dot3", "class Spectrum"), ("Observer::fromSpectrum, fromReflectanceAndLight, lumens..., candellas..., xyz", "class Observer")], ["Spectrum and Observer public members"], REF, EXP),
P("C17", "Built-in spectral tables are intact and in order",
  "Every entry of the three observers' matching functions, of the D65 spectrum, of the 99 TM-30 samples and of the 24 chart patches has its published value, reflectances lie in 0..1, the samples and patches are in order, D65 seen by the 1931 observer is the D65 white, and the predefined observers carry their own tables. Evaluating the chart under any light and observer returns the 24 patches' tristimulus values in order.",
  ["inputs", "configurations"], "all 133 tables of 400 entries, any light, all observers",
  "Tests cannot notice one altered entry among 53,200.",
  [("CIE1931_*, CIE2012_*, JuddVos, CIE_D65 tables", "namespace scope"), ("TM_30_15::sample, Macbeth::Patch, Macbeth::reference", "namespaces TM_30_15, Macbeth")], ["the tables", "Macbeth::reference"], "runtime conformance monitor over every table entry (exhaustive), integrals against a double-precision reference",
  "Exploration, exhaustive over the entries. Trusts the snapshot of the tables taken at the pinned commit; white point and plausibility are checked independently of it."),
P("C18", "Blackbody spectra, Planckian locus and CCT",
  "For every temperature the blackbody spectrum follows Planck's law in every bin, peaks at Wien's wavelength and grows with temperature at every wavelength. The two locus approximations equal their published polynomials (1667..25000 K and 1700..10000 K), lie on the locus of the computed blackbody spectra, fall in x with temperature and have the requested Y; a colour asked for at a distance from the locus lies at exactly that CIE 1960 distance, perpendicular to the locus, above it when positive, and on it when zero.",
  ["inputs"], "temperatures 300..1e5 K for spectra, the stated ranges for the locus, distances up to 0.03, any luminance",
  "The tests look at a couple of temperatures; one branch of the locus had a wrong coefficient.",
  [("Spectrum::planck, blackbody", "class Spectrum"), ("Tristimulus::fromPlanckianLocus, fromCT, fromCCT", "class Tristimulus")], ["those functions"], REF, EXP),
P("C19", "SVD, least squares and colour-correction solver",
  "For every m by n matrix with m >= n the decomposition A = U W V^T holds with non-negative singular values, orthonormal V and orthonormal U columns of non-zero singular values, and the solver returns the minimum-norm least-squares solution with relative singular values below the tolerance cut, leaving its inputs unchanged; m < n is reported as failure. Its matrices and vectors start as zeros, have the size asked for, keep each element and copy by value. The corrector returns the 3x3 matrix that minimises the squared error from patches to targets (the exact one when it exists), its chart form maps the patches onto the chart under the given light and observer, and the gamut made from a chart maps patches to the chart's XYZ and back.",
  ["inputs"], "all matrices up to 80 x 10 of any rank and scale, patch sets of 2 to 64 patches, lights and observers",
  "The tests solve one small system and one chart; rank deficiency, zero or repeated columns, orthogonal columns and noisy targets were broken or untested.",
  [("SOLVER::svdcmp, svbksb, solve", "namespace SOLVER"), ("Corrector::solve, makeGamut", "class Corrector")], ["SOLVER and Corrector functions"], "runtime monitor checking the decomposition and solution against a Jacobi SVD in double; release and ASan/UBSan builds", EXP),
P("C20", "MemoryStream typed values: layout and round trip",
  "For every sequence of typed writes, in either byte order and with the order switched at any point, the bytes laid down are the value's bytes in that order (strings as a 4-byte length including the terminator, the characters and a zero; fixed fields padded with zeros and zero-terminated), the cursor advances by exactly their number, and reading in the same sequence returns exactly the values written; pointer fields hold the position they were adjusted to, and adjusting keeps the cursor. A value cut by the end of the data reads as if followed by zero bytes, and signed reads sign-extend.",
  ["inputs", "histories"], "all value types and bit patterns, byte orders, positions and histories of writes, overwrites and reads",
  "There is no test of the stream at all.",
  [("MemoryStream put*/get*, putString/get_string, putSubstr/getSubstr, putPointer*/adjustPointer*", "class MemoryStream")], ["MemoryStream public members"], "online trace monitor against a byte-layout model; release and ASan/UBSan builds", EXP),
P("C21", "MemoryStream behaves as a byte file over any history",
  "Over any history of operations the stream agrees with a byte array and a cursor: seeks set and report the position, sequential reads and writes move the cursor by what they transferred, random access does not move it, writes past the end grow the stream with zeros between, reads stop at the end and touch only the bytes they report, and size, contents and end-of-file are those of the model after every step. Copies are independent and have the contents and cursor of their original, also when moved, swapped or held in containers; bytes changed through buffer() or ptr are the bytes of the stream.",
  ["histories", "inputs"], "all histories of the public operations with in-contract arguments; random access at any position",
  "There is no test of the stream; interactions of cursor, growth and random access need long histories.",
  [("fseek, seekTo, read/write, read_at/write_at, get_at/put_at, align, init", "class MemoryStream")], ["MemoryStream public members"], "online model-based trace monitor after every operation; release and ASan/UBSan builds", EXP),
P("C22", "No undefined behaviour, leaks into results, crashes or hangs",
  "Every public function, called with valid indices and buffers, stream positions inside the stream and finite hues but otherwise any argument values, terminates without out-of-bounds access, use of freed or uninitialised memory, signed overflow, invalid casts, failed assertions or exceptions, and keeps no memory whose amount grows with the number of calls. Loading a gamut from an ICC profile in memory never reads outside the buffer and returns the identity gamut.",
  ["inputs", "histories"], "all public operations with ordinary, extreme, denormal, infinite and NaN arguments, exactly sized buffers",
  "The tests run without sanitizers on ordinary values.",
  [("all public functions", "include/colorsystem.hpp"), ("bounds checks of MemoryStream and Spectrum::fetch", "classes MemoryStream, Spectrum")], ["process under ASan, UBSan, memcheck"], "ASan, UBSan (g++ and clang), valgrind memcheck and a CPU watchdog over an API-wide hostile workload",
  "Exploration: no report in any monitored execution. Trusts the sanitizers; memcheck sees a smaller workload."),
P("C23", "Functions are pure and thread-safe",
  "The result of every public function depends on its arguments only: bit for bit the same whatever was called before, in whatever order or how often, in a fresh process, with other stack, heap or errno contents, and from any number of threads at once without data races. Nothing is written to standard output or error and the floating-point environment is left as it was.",
  ["schedules", "histories", "inputs"], "all public operations, call orders, surroundings and thread schedules",
  "Tests are single-threaded, in one fixed order, in one process.",
  [("stateless static functions", "all classes"), ("const tables", "namespace scope")], ["results of all public operations", "stdout/stderr", "ThreadSanitizer"], "differential trace monitor over orders, surroundings and threads, plus ThreadSanitizer",
  "Exploration: the schedules the kernel and ThreadSanitizer produced. Trusts ThreadSanitizer."),
P("C24", "The compile-time square root is right for every float",
  "For every non-negative finite float the square root terminates and is within two units in the last place of the true root; it is zero for zero, exact to the last place for perfect squares, non-decreasing up to rounding, and NaN for negative, infinite and NaN arguments.",
  ["inputs"], "all 2^32 float patterns",
  "No test calls it; an iteration that oscillates for one pattern in a billion only shows in a sweep.",
  [("util::sqrtf", "namespace util")], ["util::sqrtf"], "runtime sweep with a double-precision oracle and CPU watchdog (thorough tier: every pattern)",
  "Exploration; the thorough tier is exhaustive over non-negative finite patterns. Trusts sqrt in double."),
P("C25", "Same results in constant expressions, before main and in every translation unit",
  "For ordinary arguments (finite, away from the edges of the domain, finite result) matrix and tristimulus arithmetic, the Yxy, Yuv, CIELAB, HSV and Planckian-locus conversions, gamut construction, accessors and conversion, the constexpr square root, spectrum sums, dot products and fetches, and observers can be evaluated in constant expressions (g++, C++17, default depth and loop limits) and give there the value they give at run time; so can the named illuminants, gamuts, spectra, observers and charts. The named constants need no dynamic initialisation: any call made from a static initialiser before main, and from any translation unit that includes the header, gives bit for bit the result it gives later in main.",
  ["inputs", "histories"], "all ordinary arguments of the constexpr functions; every call of the public interface at any time from program start, in any translation unit",
  "The tests call everything from main at run time; none asks for a constant expression, calls anything during static initialisation or compares translation units.",
  [("constexpr members of Matrix3, Tristimulus, Gamut, Spectrum, Observer", "constexpr declarations"), ("named constants", "Illuminant_*, gamuts, CIE*, TM_30_15::sample, Macbeth::Patch")],
  ["constant expressions evaluated by the compiler; results recorded before main"], "runtime monitor comparing compile-time, pre-main and run-time results of the same calls; release, NDEBUG, -O0, ASan/UBSan and clang builds",
  "Exploration: every monitored execution agreed. The compiler is the interpreter of the constant expressions and refuses undefined behaviour in them."),
]

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=F, mechanism=[dict(name=a, where="include/colorsystem.hpp: " + b if b != F[0] else b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
json.dump(dict(version=1, setup_cmd="python3 run.py --setup",
    checks=[dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                 evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]) for p in PROPS],
    not_applicable=[], notes="No hooks in /repo: every monitor observes the public API. Repairs of defects found are 'fix:' commits; see known_findings.txt and DESIGN.md."),
    open(V + "/MANIFEST.json", "w"), indent=1)
