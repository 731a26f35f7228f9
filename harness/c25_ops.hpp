// The calls C25 makes twice: in constant expressions (c25_ct.cpp, where CT is constexpr) and at run time (c25.cpp, where
// it is nothing).  Everything is in an unnamed namespace: each translation unit has its own.
#pragma once
#include <array>
#include <cstdint>
#ifndef CT_SEED
#define CT_SEED 1
#endif
#ifndef CT_N
#define CT_N 40
#endif
namespace
{
namespace L = ColorSystem;
struct G // arguments by position: ordinary values, no edge of any function's domain
{
    uint32_t s;
    CT uint32_t h(uint32_t k) const
    {
        uint32_t x = s * 0x9E3779B9u + k * 0x85EBCA6Bu + 0x27220A95u;
        x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16;
        return x;
    }
    CT float f(uint32_t k, float lo, float hi) const { return lo + (hi - lo) * ((float)(h(k) >> 8) / 16777216.f); }
    CT float pm(uint32_t k, float lo, float hi) const { return (h(k + 1000) & 1) ? f(k, lo, hi) : -f(k, lo, hi); }
    CT L::Tristimulus t(uint32_t k, float lo, float hi) const { return L::Tristimulus(f(k, lo, hi), f(k + 1, lo, hi), f(k + 2, lo, hi)); }
    CT L::Tristimulus st(uint32_t k) const { return L::Tristimulus(pm(k, 0.01f, 3.f), pm(k + 1, 0.01f, 3.f), pm(k + 2, 0.01f, 3.f)); }
    CT L::Vector3 v(uint32_t k) const { return L::Vector3(pm(k, 0.01f, 3.f), pm(k + 1, 0.01f, 3.f), pm(k + 2, 0.01f, 3.f)); }
    // diagonally dominant: invertible
    CT L::Matrix3 m(uint32_t k) const { return L::Matrix3(pm(k, 2.f, 4.f), pm(k + 1, .01f, .9f), pm(k + 2, .01f, .9f), pm(k + 3, .01f, .9f), pm(k + 4, 2.f, 4.f), pm(k + 5, .01f, .9f), pm(k + 6, .01f, .9f), pm(k + 7, .01f, .9f), pm(k + 8, 2.f, 4.f)); }
};
struct O // results
{
    float v[128];
    int n;
    CT O() : v{}, n(0) {}
    CT void p(float x) { v[n++] = x; }
    CT void p(const L::Vector3 &x) { for (int i = 0; i < 3; i++) p(x[i]); }
    CT void p(const L::Tristimulus &x) { for (int i = 0; i < 3; i++) p(x[i]); }
    CT void p(const L::Matrix3 &x) { for (int i = 0; i < 9; i++) p(x[i]); }
};
enum { OPS = 21 };
static const char *const OPNAME[OPS] = {"Matrix3 products", "Matrix3 inverse and determinant", "Matrix3 parts and crosstalk", "Tristimulus arithmetic", "min, max, clip", "Yxy", "Yuv", "Planckian locus", "fromCCT", "CIELAB", "HSV", "fromHSV", "Gamut from primaries", "Gamut from a matrix", "built-in gamuts", "built-in whites", "square root", "Spectrum", "Observer", "table fetch", "TM-30 and chart"};
#ifndef CT_HEAVY
#define CT_HEAVY(n) ((n) == 17 || (n) == 18 || (n) == 20)
#endif
CT const L::Gamut &gamut(uint32_t i)
{
    switch (i % 10)
    {
    case 0: return L::AdobeRGB; case 1: return L::Rec709; case 2: return L::Rec2020; case 3: return L::DCI_P3; case 4: return L::S_Gamut;
    case 5: return L::S_Gamut3_Cine; case 6: return L::ACEScg; case 7: return L::ACES2065; case 8: return L::LMS; default: return L::XYZ;
    }
}
CT const L::Tristimulus &white(uint32_t i)
{
    switch (i % 12)
    {
    case 0: return L::Illuminant_A; case 1: return L::Illuminant_B; case 2: return L::Illuminant_C; case 3: return L::Illuminant_D50;
    case 4: return L::Illuminant_D55; case 5: return L::Illuminant_D60; case 6: return L::Illuminant_D65; case 7: return L::Illuminant_D75;
    case 8: return L::Illuminant_E; case 9: return L::Illuminant_F2; case 10: return L::Illuminant_F7; default: return L::Illuminant_F11;
    }
}
CT const L::Observer &observer(uint32_t i)
{
    switch (i % 3) { case 0: return L::CIE1931; case 1: return L::CIE31JV; default: return L::CIE2012; }
}
CT O op0(G g) { O o; const L::Matrix3 a = g.m(0), b = g.m(10); const L::Vector3 v = g.v(20); o.p(a.mul(b)); o.p(L::Matrix3::mul(b, a)); o.p(a.apply(v)); o.p(L::Matrix3::apply(b, v)); o.p(a.mul(v[0])); o.p(a.div(v[1])); o.p(L::Matrix3::div(b, v[1])); o.p(a.add(b)); o.p(L::Matrix3::add(a, b)); o.p(v.dot(g.v(30))); o.p(L::Vector3::dot(v, g.v(40))); return o; }
CT O op1(G g) { O o; const L::Matrix3 a = g.m(0); o.p(a.invert()); o.p(L::Matrix3::invert(g.m(10))); o.p(a.det()); o.p(L::Matrix3::det(g.m(20))); return o; }
CT O op2(G g) { O o; const L::Matrix3 a = g.m(0); o.p(a.transpose()); o.p(L::Matrix3::transpose(a)); for (int i = 0; i < 3; i++) { o.p(a.row(i)); o.p(a.col(i)); } o.p(L::Matrix3::diag(g.v(10))); o.p(L::Matrix3::crosstalk(g.f(20, 0.f, 0.3f))); o.p(L::Matrix3::crosstalkInvert(g.f(21, 0.f, 0.3f))); o.p(L::Matrix3()); const float q[9] = {1, g.f(1, 0, 1), 3, 4, g.f(2, 0, 1), 6, 7, 8, g.f(3, 0, 1)}; o.p(L::Matrix3::fromArray(q)); return o; }
CT O op3(G g) { O o; const L::Tristimulus a = g.st(0), b = g.st(3); const float s = g.pm(6, 0.1f, 5.f); o.p(a + b); o.p(a.add(b)); o.p(L::Tristimulus::add(a, b)); o.p(a * b); o.p(L::Tristimulus::mul(a, b)); o.p(a * s); o.p(a / s); o.p(a.scale(s)); o.p(a.dot(b)); o.p(L::Tristimulus::dot(a, b)); o.p(a.apply(g.m(10))); o.p(L::Tristimulus::apply(b, g.m(20))); o.p(L::Tristimulus(s)); o.p(L::Tristimulus()); o.p(L::Tristimulus(g.v(30))); o.p(a.a()); o.p(a.b()); o.p(a.c()); o.p(a.vec3()); return o; }
CT O op4(G g) { O o; const L::Tristimulus a = g.st(0), b = g.st(3); const float l = g.f(6, -2.f, 0.5f), h = g.f(7, 0.6f, 2.f); o.p(a.min(b)); o.p(a.max(b)); o.p(L::Tristimulus::min(a, b)); o.p(L::Tristimulus::max(a, b)); o.p(a.min3()); o.p(a.max3()); o.p(a.clip(l, h)); o.p(L::Tristimulus::clip(b, l, h)); o.p(a.positive()); o.p(L::Tristimulus::positive(b)); o.p(a.hasNegative() ? 1.f : 0.f); o.p(L::Tristimulus::hasNegative(b) ? 1.f : 0.f); o.p(L::Tristimulus::abs_f(l)); return o; }
CT O op5(G g) { O o; const L::Tristimulus a = g.t(0, 0.02f, 3.f), c(g.f(3, 0.01f, 5.f), g.f(4, 0.1f, 0.7f), g.f(5, 0.1f, 0.8f)); o.p(a.toYxy()); o.p(L::Tristimulus::toYxy(a)); o.p(L::Tristimulus::toYxy(a[0], a[1], a[2])); o.p(c.fromYxy()); o.p(L::Tristimulus::fromYxy(c)); o.p(L::Tristimulus::fromYxy(c[0], c[1], c[2])); return o; }
CT O op6(G g) { O o; const L::Tristimulus a = g.t(0, 0.02f, 3.f), c(g.f(3, 0.01f, 5.f), g.f(4, 0.1f, 0.5f), g.f(5, 0.2f, 0.36f)); o.p(a.toYuv()); o.p(L::Tristimulus::toYuv(a)); o.p(L::Tristimulus::toYuv(a[0], a[1], a[2])); o.p(c.fromYuv()); o.p(L::Tristimulus::fromYuv(c)); o.p(L::Tristimulus::fromYuv(c[0], c[1], c[2])); o.p(L::Tristimulus::YuvToYxy(c)); o.p(L::Tristimulus::YxyToYuv(L::Tristimulus(1.f, g.f(6, 0.1f, 0.6f), g.f(7, 0.1f, 0.7f)))); return o; }
CT O op7(G g) { O o; const float T = g.f(0, 1670.f, 24900.f), U = g.f(1, 1700.f, 10000.f), Y = g.f(2, 0.1f, 5.f); o.p(L::Tristimulus::fromPlanckianLocus(T, Y)); o.p(L::Tristimulus::fromPlanckianLocus(T)); o.p(L::Tristimulus::fromCT(U, Y)); o.p(L::Tristimulus::fromCT(U)); return o; }
CT O op8(G g) { O o; const float U = g.f(1, 1700.f, 10000.f), Y = g.f(2, 0.1f, 5.f), d = g.pm(3, 0.0001f, 0.03f); o.p(L::Tristimulus::fromCCT(U, d, Y)); o.p(L::Tristimulus::fromCCT(U, d)); return o; }
CT O op9(G g) { O o; const L::Tristimulus a = g.t(0, 0.001f, 0.8f), w = white(g.h(9)), l(g.f(3, 1.f, 95.f), g.pm(4, 0.f, 60.f), g.pm(5, 0.f, 60.f)); o.p(a.toCIELAB()); o.p(a.toCIELAB(w)); o.p(L::Tristimulus::toCIELAB(a, w)); o.p(l.fromCIELAB()); o.p(l.fromCIELAB(w)); o.p(L::Tristimulus::fromCIELAB(l, w)); return o; }
CT O op10(G g) { O o; const L::Tristimulus a = g.t(0, 0.01f, 1.f); o.p(a.toHSV()); o.p(L::Tristimulus::toHSV(a)); return o; }
CT O op11(G g) { O o; const float big = g.pm(7, 1e3f, 9e5f); const L::Tristimulus a(g.pm(0, 0.f, 720.f), g.f(1, 0.01f, 1.f), g.f(2, 0.01f, 2.f)), b(big, a[1], a[2]); o.p(a.fromHSV()); o.p(L::Tristimulus::fromHSV(a)); o.p(b.fromHSV()); o.p(L::Tristimulus::mod360(big)); return o; }
CT O op12(G g) { O o; const L::Gamut q("made", g.f(0, 0.58f, 0.74f), g.f(1, 0.25f, 0.35f), g.f(2, 0.1f, 0.3f), g.f(3, 0.6f, 0.85f), g.f(4, 0.1f, 0.16f), g.f(5, 0.02f, 0.1f), g.f(6, 0.3f, 0.35f), g.f(7, 0.3f, 0.36f)); const L::Tristimulus a = g.st(10); o.p(q.toXYZ()); o.p(q.fromXYZ()); o.p(q.toXYZ(a)); o.p(q.fromXYZ(a)); o.p(q.primaryWhite()); o.p(q.primaryRed()); o.p(q.primaryGreen()); o.p(q.primaryBlue()); o.p(L::GamutConvert(q, gamut(g.h(20)))); return o; }
CT O op13(G g) { O o; const L::Gamut q("matrix", g.m(0)); const L::Tristimulus a = g.st(10); o.p(q.toXYZ()); o.p(q.fromXYZ()); o.p(q.toXYZ(a)); o.p(q.fromXYZ(a)); o.p(L::GamutConvert(gamut(g.h(20)), q)); return o; }
CT O op14(G g) { O o; const L::Gamut &q = gamut(g.s), &p = gamut(g.h(1)); const L::Tristimulus a = g.st(10); o.p(q.toXYZ()); o.p(q.fromXYZ()); o.p(q.toXYZ(a)); o.p(q.fromXYZ(a)); o.p(q.primaryWhite()); o.p(q.primaryRed()); o.p(q.primaryGreen()); o.p(q.primaryBlue()); o.p(L::GamutConvert(q, p)); for (int i = 0; i < 3; i++) o.p((float)q.name_[i]); return o; }
CT O op15(G g) { O o; o.p(white(g.s)); o.p(white(g.s).toYxy()); o.p(white(g.h(1)).toYuv()); return o; }
CT O op16(G g) { O o; o.p(L::util::sqrtf(g.f(0, 0.f, 1.f))); o.p(L::util::sqrtf(g.f(1, 1.f, 1e6f))); o.p(L::util::sqrtf(g.f(2, 1e-12f, 1e-6f))); o.p(L::util::sqrtf(g.f(3, 1e20f, 1e38f))); o.p(L::util::sqrtf(g.f(4, 1e-37f, 1e-30f))); return o; }
CT L::Spectrum spec(G g, uint32_t k) { std::array<float, 400> a{}; const_cast<float &>(static_cast<const std::array<float, 400> &>(a)[0]) = 0.f; for (int i = 0; i < 400; i++) const_cast<float &>(static_cast<const std::array<float, 400> &>(a)[i]) = g.f(k + i, 0.f, 1.f); return L::Spectrum(a); }
CT O op17(G g) { O o; const L::Spectrum a = spec(g, 0), b = spec(g, 500), c = spec(g, 1500); o.p(a.sum()); o.p(L::Spectrum::sum(b)); o.p(a.dot(b)); o.p(L::Spectrum::dot(b, c)); o.p(L::Spectrum::dot3(a, b, c)); o.p(a[(int)(g.h(5) % 400)]); o.p(a.fetch(g.f(6, 381.f, 778.f))); o.p(a.fetch(g.f(7, 300.f, 379.f))); o.p(a.fetch(g.f(8, 780.f, 900.f))); const L::Spectrum z; o.p(z.sum()); o.p(L::CIE_D65.sum()); return o; }
CT O op18(G g) { O o; const L::Observer &q = observer(g.s); const L::Spectrum a = spec(g, 0), b = spec(g, 500); o.p(q.fromSpectrum(a)); o.p(q.fromReflectanceAndLight(a, b)); o.p(q.fromReflectanceAndLight(a, L::CIE_D65)); o.p(q.xyz(g.f(7, 381.f, 778.f))); o.p(q.lumensFromMonochromaticFlux(g.f(8, 381.f, 778.f), g.f(9, 0.f, 2.f))); o.p(q.candellasFromMonochromaticRadiance(g.f(8, 381.f, 778.f), g.f(9, 0.f, 2.f))); o.p(L::Observer(a, b, a).fromSpectrum(b)); return o; }
CT O op19(G g) { O o; const float q[6] = {g.f(0, 0, 1), g.f(1, 0, 1), g.f(2, 0, 1), g.f(3, 0, 1), g.f(4, 0, 1), g.f(5, 0, 1)}; const float lo = g.f(6, 300.f, 400.f), hi = g.f(7, 500.f, 800.f); for (int i = 0; i < 8; i++) o.p(L::Spectrum::fetch(q, 6, lo, hi, g.f(10 + i, 250.f, 850.f))); o.p(L::Spectrum::lerp(q[0], q[1], q[2])); return o; }
CT O op20(G g) { O o; o.p(L::TM_30_15::sample[g.s % 99].sum()); o.p(L::Macbeth::Patch[g.s % 24].sum()); o.p(L::TM_30_15::sample[g.h(1) % 99][(int)(g.h(2) % 400)]); o.p(L::Macbeth::Patch[g.h(3) % 24][(int)(g.h(4) % 400)]); o.p(L::CIE1931.fromReflectanceAndLight(L::Macbeth::Patch[g.h(5) % 24], L::CIE_D65)); return o; }
template <int K> CT O callop(G g)
{
    return K == 0 ? op0(g) : K == 1 ? op1(g) : K == 2 ? op2(g) : K == 3 ? op3(g) : K == 4 ? op4(g) : K == 5 ? op5(g) : K == 6 ? op6(g) : K == 7 ? op7(g) : K == 8 ? op8(g) : K == 9 ? op9(g) : K == 10 ? op10(g) : K == 11 ? op11(g) : K == 12 ? op12(g) : K == 13 ? op13(g) : K == 14 ? op14(g) : K == 15 ? op15(g) : K == 16 ? op16(g) : K == 17 ? op17(g) : K == 18 ? op18(g) : K == 19 ? op19(g) : op20(g);
}
CT int cases(int op) { return CT_HEAVY(op) ? (CT_N + 11) / 12 : CT_N; }
CT G arg(int op, int i) { return G{(uint32_t)(CT_SEED * 1000003u + (uint32_t)op * 10007u + (uint32_t)i)}; }
} // namespace
