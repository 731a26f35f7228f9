// One table of calls that covers the public interface; C22 drives it with hostile values under the sanitizers, C23
// compares results bit for bit between histories, processes and threads.
#pragma once
#include "common.hpp"
namespace H
{
struct Ctx
{
    Rng r;
    int mode; // 0 ordinary values, some from a small pool so that calls share arguments; 1 any finite; 2 any bits
    std::vector<uint32_t> out;
    Ctx(uint64_t seed, int m) : r(seed), mode(m) {}
    Ctx(Rng g, int m) : r(g), mode(m) {}
    float pool() { static const float p[] = {0.f, 1.f, 0.5f, 0.18f, 0.25f, 0.75f, 0.3127f, 0.329f, 0.1f, 0.9f, 2.f, -0.1f}; return (float)r.jitter(p[r.below(12)], -3, 3); }
    float f()
    {
        if (mode == 0 || r.below(6) == 0) return r.below(2) ? pool() : r.f(0, 1);
        if (r.below(3) == 0)
        {
            static const float s[] = {FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, FLT_TRUE_MIN, -FLT_TRUE_MIN, -0.f, 1e10f, -1e10f, 3.4e38f, 1e-30f, -1.f, 255.f, 1023.f, 360.f, -360.f};
            return s[r.below(16)];
        }
        if (mode == 2 && r.below(3) == 0) { static const float s[] = {NAN, INFINITY, -INFINITY, -NAN}; return s[r.below(4)]; }
        return r.below(2) ? anyfinite(r) : r.sgn() * r.logf_(1e-6, 1e6);
    }
    float fin() { for (;;) { float x = f(); if (std::isfinite(x)) return x; } }
    float pos() { return mode ? r.logf_(1e-4, 1e4) : (r.below(2) ? std::fabs(pool()) + 0.05f : r.f(0.05, 1)); }
    Tristimulus t() { float a = f(), b = f(), c = f(); return Tristimulus(a, b, c); }
    Tristimulus tfin() { float a = fin(), b = fin(), c = fin(); return Tristimulus(a, b, c); }
    Tristimulus white() { static const Tristimulus *w[] = {&CS::Illuminant_D65, &CS::Illuminant_D50, &CS::Illuminant_E, &CS::Illuminant_A}; if (r.below(2)) return *w[r.below(4)]; float a = pos(), b = pos(), c = pos(); return Tristimulus(a, b, c); }
    Vector3 v() { float a = f(), b = f(), c = f(); return Vector3(a, b, c); }
    Matrix3 m() { float a[9]; for (auto &x : a) x = f(); return Matrix3(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); }
    Spectrum s()
    {
        switch (r.below(5))
        {
        case 0: return CS::CIE_D65;
        case 1: return CS::Macbeth::Patch[r.below(24)];
        case 2: return Spectrum::E(f());
        default: { std::array<float, 400> a; float k = f(); for (int i = 0; i < 400; i++) a[i] = r.below(40) ? k * (float)(1 + (i % 7)) : f(); return Spectrum(a); }
        }
    }
    const Gamut &g()
    {
        static const Gamut *all[] = {&CS::AdobeRGB, &CS::Rec709, &CS::Rec2020, &CS::DCI_P3, &CS::S_Gamut, &CS::S_Gamut3_Cine, &CS::ACES2065, &CS::ACEScg, &CS::LMS, &CS::XYZ};
        return *all[r.below(10)];
    }
    const CS::Observer &o() { static const CS::Observer *all[] = {&CS::CIE1931, &CS::CIE2012, &CS::CIE31JV}; return *all[r.below(3)]; }
    void p(float x)
    {
        out.push_back(std::isnan(x) ? 0x7fc00000u : ubits(x));
    }
    void p(const Tristimulus &t) { for (int i = 0; i < 3; i++) p(t[i]); }
    void p(const Vector3 &t) { for (int i = 0; i < 3; i++) p(t[i]); }
    void p(const Matrix3 &t) { for (int i = 0; i < 9; i++) p(t[i]); }
    void p(const Spectrum &t) { for (int i = 0; i < 400; i++) p(t[i]); }
    void n(uint64_t x) { out.push_back((uint32_t)x); out.push_back((uint32_t)(x >> 32)); }
    void n(const std::string &s) { n(s.size()); for (char c : s) out.push_back((uint8_t)c); }
};
// an ICC profile: well formed, damaged in one place, cut anywhere, or plain noise
inline std::vector<uint8_t> icc_profile(Ctx &c)
{
    Rng &r = c.r;
    std::vector<uint8_t> v;
    uint32_t kind = r.below(8);
    if (kind == 0) { v.resize(r.below(3) ? r.below(200) : 0); for (auto &b : v) b = (uint8_t)r.u64(); if (v.size() >= 40 && r.below(2)) memcpy(v.data() + 36, "acsp", 4); return v; }
    auto be = [&](size_t at, uint32_t x) { if (v.size() < at + 4) v.resize(at + 4); for (int i = 0; i < 4; i++) v[at + i] = (uint8_t)(x >> (24 - 8 * i)); };
    auto sig = [&](size_t at, const char *t) { if (v.size() < at + 4) v.resize(at + 4); memcpy(v.data() + at, t, 4); };
    v.resize(128);
    sig(4, r.below(2) ? "lcms" : "ADBE");
    be(8, r.below(2) ? 0x02100000u : 0x04300000u);
    static const char *cls[] = {"mntr", "scnr", "prtr", "spac", "link"}, *spc[] = {"RGB ", "GRAY", "CMYK", "Lab ", "XYZ "};
    sig(12, cls[r.below(3) ? 0 : r.below(5)]);
    sig(16, spc[r.below(3) ? 0 : r.below(5)]);
    sig(20, r.below(4) ? "XYZ " : "Lab ");
    sig(36, "acsp");
    be(68, 0x0000f6d6u); be(72, 0x00010000u); be(76, 0x0000d32du);
    static const char *tags[] = {"rXYZ", "gXYZ", "bXYZ", "wtpt", "chad", "rTRC", "gTRC", "bTRC", "desc", "cprt"};
    int n = r.below(4) ? 10 : (int)r.below(11);
    be(128, (uint32_t)n);
    size_t data = 132 + 12 * (size_t)n;
    v.resize(data);
    for (int i = 0; i < n; i++)
    {
        size_t at = v.size(), len;
        if (i < 4) { len = 20; sig(at, "XYZ "); be(at + 4, 0); for (int k = 0; k < 3; k++) be(at + 8 + 4 * k, (uint32_t)(int32_t)(r.f(-0.2, 1.2) * 65536)); }
        else if (i == 4) { len = 44; sig(at, "sf32"); be(at + 4, 0); for (int k = 0; k < 9; k++) be(at + 8 + 4 * k, (uint32_t)(int32_t)(r.f(-1, 1.2) * 65536)); }
        else if (i < 8)
        {
            uint32_t pts = r.below(3) ? r.below(3) : r.below(3000);
            len = 12 + 2 * (size_t)pts;
            sig(at, "curv"); be(at + 4, 0); be(at + 8, pts);
            for (uint32_t k = 0; k < pts; k++) { v.push_back((uint8_t)r.u64()); v.push_back((uint8_t)r.u64()); }
            while (v.size() % 4) v.push_back(0);
        }
        else { len = 12 + r.below(60); sig(at, i == 8 ? "desc" : "text"); be(at + 4, 0); be(at + 8, (uint32_t)len - 12); v.resize(at + (len + 3) / 4 * 4, 'x'); }
        sig(132 + 12 * i, tags[i]); be(136 + 12 * i, (uint32_t)at); be(140 + 12 * i, (uint32_t)len);
    }
    be(0, (uint32_t)v.size());
    if (kind == 1) v.resize(r.below((uint32_t)v.size() + 1)); // cut anywhere
    if (kind == 2) { static const uint32_t at[] = {0, 127, 128, 131, 132, 136, 140, 144}; v.resize(std::min<size_t>(v.size(), at[r.below(8)])); }
    if (kind == 3) { static const uint32_t x[] = {0, 1, 0xffffffffu, 0x7fffffffu, 0x80000000u, 100, 1000000}; size_t at = r.below(2) || !n ? (r.below(2) ? 0 : 128) : 136 + 12 * r.below(n) + 4 * r.below(2); if (at + 4 <= v.size()) be(at, r.below(2) ? x[r.below(7)] : (uint32_t)v.size() - r.below(8)); }
    if (kind == 4 && !v.empty()) for (int k = 1 + r.below(8); k > 0; k--) v[r.below((uint32_t)v.size())] = (uint8_t)r.u64();
    if (kind == 5) v.resize(v.size() + r.below(40)); // longer than it says
    return v;
}
struct OpDef { const char *name; void (*f)(Ctx &); };

inline const std::vector<OpDef> &ops()
{
    using T = Tristimulus;
    using M = Matrix3;
    using MS = CS::MemoryStream;
    static const std::vector<OpDef> v = {
        {"Matrix3 mul/add/apply", [](Ctx &c) { M a = c.m(), b = c.m(); c.p(M::mul(a, b)); c.p(a.mul(b)); c.p(M::add(a, b)); c.p(M::mul(a, c.f())); c.p(a.apply(c.v())); c.p(a.transpose()); }},
        {"Matrix3 det/invert", [](Ctx &c) { M a = c.m(); c.p(M::det(a)); c.p(a.det()); c.p(a.invert()); }},
        {"Matrix3 crosstalk", [](Ctx &c) { float f = c.f(); c.p(M::crosstalk(f)); c.p(M::crosstalkInvert(f)); c.p(M::diag(c.v())); c.p(M()); }},
        {"Matrix3 fromArray", [](Ctx &c) { std::unique_ptr<float[]> a(new float[9]); for (int i = 0; i < 9; i++) a[i] = c.f(); c.p(M::fromArray(a.get())); }},
        {"Tristimulus arithmetic", [](Ctx &c) { T a = c.t(), b = c.t(); float s = c.f(); c.p(a + b); c.p(a * b); c.p(a * s); c.p(a.scale(s)); c.p(T::add(a, b)); c.p(T::mul(a, b)); c.p(a.dot(b)); c.p(a.apply(c.m())); }},
        {"Tristimulus min/max/clip", [](Ctx &c) { T a = c.t(), b = c.t(); float l = c.f(), h = c.f(); c.p(T::min(a, b)); c.p(T::max(a, b)); c.p(a.min(b)); c.p(a.max(b)); c.p(a.clip(l, h)); c.p(a.positive()); }},
        {"Yxy", [](Ctx &c) { T a = c.t(); c.p(a.toYxy()); c.p(a.fromYxy()); c.p(T::toYxy(a[0], a[1], a[2])); }},
        {"Yuv", [](Ctx &c) { T a = c.t(); c.p(a.toYuv()); c.p(a.fromYuv()); c.p(T::YxyToYuv(a)); c.p(T::YuvToYxy(a)); }},
        {"fromPlanckianLocus", [](Ctx &c) { float t = c.mode ? c.f() : (c.r.below(2) ? 5000.f : c.r.f(1667, 25000)); c.p(T::fromPlanckianLocus(t, c.f())); c.p(T::fromPlanckianLocus(t)); }},
        {"fromCT", [](Ctx &c) { float t = c.mode ? c.f() : (c.r.below(2) ? 5000.f : c.r.f(1700, 10000)); c.p(T::fromCT(t, c.f())); c.p(T::fromCT(t)); }},
        {"fromCCT", [](Ctx &c) { float t = c.mode ? c.f() : (c.r.below(2) ? 5000.f : c.r.f(1700, 10000)), d = c.r.below(2) ? 0.01f : c.r.f(-0.03, 0.03); c.p(T::fromCCT(t, d, c.f())); c.p(T::fromCCT(t, d)); }},
        {"CIELAB", [](Ctx &c) { T a = c.t(), w = c.white(); c.p(a.toCIELAB(w)); c.p(a.toCIELAB()); c.p(a.fromCIELAB(w)); c.p(a.fromCIELAB()); c.p(T::toCIELAB(a, w)); c.p(T::fromCIELAB(a, w)); }},
        {"OKLAB", [](Ctx &c) { T a = c.t(); c.p(CS::XYZ_to_OKLAB(a)); c.p(CS::OKLAB_to_XYZ(a)); }},
        {"ICtCp", [](Ctx &c) { T a = c.t(); c.p(CS::XYZ_to_ICtCp(a)); c.p(CS::ICtCp_to_XYZ(a)); }},
        {"toHSV", [](Ctx &c) { T a = c.t(); c.p(a.toHSV()); c.p(a.toHSV_atan()); c.p(T::toHSV(a)); c.p(T::toHSV_atan(a)); }},
        {"fromHSV", [](Ctx &c) { T a = c.tfin(); c.p(a.fromHSV()); float h = c.r.below(2) ? c.fin() : c.r.f(-720, 1080), s = c.r.f(0, 1), v = c.f(); c.p(T::fromHSV(T(h, s, v))); c.p(T::mod360(h)); }},
        {"Delta", [](Ctx &c) { T a = c.t(), b = c.t(); c.p(CS::Delta::UV(a, b)); c.p(CS::Delta::E76(a, b)); c.p(CS::Delta::E00(a, b)); c.p(CS::Delta::E00(a, b, c.pos(), c.pos(), c.pos())); c.p(CS::Delta::ICtCp(a, b)); }},
        {"Delta Lab range", [](Ctx &c) { T a(c.r.f(0, 100), c.r.f(-120, 120), c.r.f(-120, 120)), b(c.r.f(0, 100), c.r.f(-120, 120), c.r.f(-120, 120)); c.p(CS::Delta::E00(a, b)); c.p(CS::Delta::E76(a, b)); }},
        {"Gamut", [](Ctx &c) { const Gamut &g = c.g(); T a = c.t(); c.p(g.toXYZ(a)); c.p(g.fromXYZ(a)); c.p(g.toXYZ()); c.p(g.fromXYZ()); c.p(g.primaryWhite()); c.p(g.primaryRed()); c.p(g.primaryGreen()); c.p(g.primaryBlue()); c.n(std::string(g.name())); }},
        {"Gamut from primaries", [](Ctx &c) { float a[8]; for (auto &x : a) x = c.f(); const Gamut g("made", a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); c.p(g.toXYZ()); c.p(g.fromXYZ()); const Gamut h("matrix", c.m()); c.p(h.toXYZ(c.t())); }},
        {"GamutConvert/Bradford", [](Ctx &c) { c.p(CS::GamutConvert(c.g(), c.g())); T w1 = c.white(), w2 = c.white(); c.p(CS::Bradford(w1, w2)); }},
        {"OTF toScreen", [](Ctx &c) { OTF::TYPE t = (OTF::TYPE)c.r.below(10); c.p(OTF::toScreen(t, c.t(), c.r.below(2) ? 2.2f : c.pos())); }},
        {"OTF toScene", [](Ctx &c) { OTF::TYPE t = (OTF::TYPE)c.r.below(10); c.p(OTF::toScene(t, c.t(), c.r.below(2) ? 2.2f : c.pos())); }},
        {"OTF scalar", [](Ctx &c) { float x = c.f(); c.p(OTF::gamma(x, c.pos())); c.p(OTF::degamma(x, c.pos())); c.p(OTF::ST2084_to_Y(x)); c.p(OTF::Y_to_ST2084(x)); c.p(OTF::Y_to_sRGB(x)); c.p(OTF::sRGB_to_Y(x)); c.p(OTF::Y_to_BT709(x)); c.p(OTF::BT709_to_Y(x)); c.p(OTF::Y_to_HLG(x)); c.p(OTF::HLG_to_Y(x)); c.p(OTF::Y_to_SLog(x)); c.p(OTF::SLog_to_Y(x)); c.p(OTF::Y_to_SLog2(x)); c.p(OTF::SLog2_to_Y(x)); c.p(OTF::Y_to_SLog3(x)); c.p(OTF::SLog3_to_Y(x)); c.p(OTF::CV_to_IRE_SLog2(x)); c.p(OTF::IRE_to_CV_SLog2(x)); }},
        {"Spectrum fetch", [](Ctx &c) { Spectrum s = c.s(); c.p(s.fetch(c.f())); c.p(s.fetch(c.r.f(300, 900))); c.p(s.fetch(380.f + c.r.below(400))); c.p(s.fetch(779.f)); c.p(s.fetch(ulps(779.f, -1))); }},
        {"Spectrum from samples", [](Ctx &c) {
             int n = 1 + c.r.below(c.r.below(4) ? 90 : 900);
             std::unique_ptr<float[]> a(new float[n]);
             for (int i = 0; i < n; i++) a[i] = c.f();
             float lo = c.r.below(3) ? c.r.f(200, 800) : 380.f, hi = c.r.below(4) ? lo + c.r.f(1, 500) : (c.r.below(2) ? 779.f : c.r.f(200, 800));
             if (c.mode && c.r.below(4) == 0) { lo = c.f(); hi = c.f(); if (c.r.below(4) && hi < lo) std::swap(lo, hi); } // any range
             const Spectrum s(a.get(), n, lo, hi);
             c.p(s);
             for (int i = 0; i < 20; i++) { float t = c.r.below(4) == 0 ? c.f() : (c.r.below(2) ? c.r.f(lo, hi > lo ? hi : lo + 1) : ulps(c.r.below(2) ? hi : lo, (int)c.r.below(9) - 4)); c.p(Spectrum::fetch(a.get(), n, lo, hi, t)); } }},
        {"Spectrum algebra", [](Ctx &c) { Spectrum a = c.s(), b = c.s(), d = c.s(); c.p(a + b); c.p(a * b); c.p(a * c.f()); c.p(a.sum()); c.p(a.dot(b)); c.p(Spectrum::dot3(a, b, d)); c.p(a.s()[c.r.below(400)]); }},
        {"blackbody", [](Ctx &c) { float t = c.mode ? c.f() : (c.r.below(2) ? 6500.f : c.r.f(1000, 12000)); if (!(std::fabs(t) < 3e5f)) t = 6500; c.p(Spectrum::blackbody(t)); }},
        {"Observer", [](Ctx &c) { const CS::Observer &o = c.o(); Spectrum s = c.s(), l = c.s(); c.p(o.fromSpectrum(s)); c.p(o.fromReflectanceAndLight(s, l)); c.p(o.lumensFromMonochromaticFlux(c.r.f(300, 900), c.f())); c.p(o.candellasFromMonochromaticRadiance(c.f(), c.f())); c.p(o.xyz(c.r.f(300, 900))); }},
        {"Observer made", [](Ctx &c) { const CS::Observer o(c.s(), c.s(), c.s()); c.p(o.fromSpectrum(c.s())); c.p(o.xyz(c.f())); }},
        {"Macbeth reference", [](Ctx &c) { auto v = c.r.below(2) ? CS::Macbeth::reference(c.s()) : CS::Macbeth::reference(c.s(), c.o()); for (auto &t : v) c.p(t); }},
        {"TM30", [](Ctx &c) { int k = c.r.below(99); c.p(CS::TM_30_15::sample[k]); }},
        {"svdcmp", [](Ctx &c) {
             int n = 1 + c.r.below(6), m = c.r.below(6) ? n + c.r.below(6) : 1 + c.r.below(6);
             if (c.r.below(20) == 0) m = n = 0; // a matrix without rows
             CS::SOLVER::Matrix a(m, n), v(n, n);
             CS::SOLVER::Vector w(n);
             for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = c.f();
             int rc = CS::SOLVER::svdcmp(a, w, v);
             c.n((uint64_t)(int64_t)(rc < 0 ? -1 : rc));
             if (rc >= 0) for (int j = 0; j < n; j++) c.p(w[j]); }},
        {"solve", [](Ctx &c) {
             int n = 1 + c.r.below(6), m = c.r.below(6) ? n + c.r.below(6) : 1 + c.r.below(6);
             if (c.r.below(20) == 0) m = n = 0;
             CS::SOLVER::Matrix a(m, n);
             CS::SOLVER::Vector b(m), x(n);
             for (int i = 0; i < m; i++) { b[i] = c.f(); for (int j = 0; j < n; j++) a[i][j] = c.f(); }
             int rc = CS::SOLVER::solve(a, b, x, c.r.below(2) ? 1e-5f : c.pos());
             c.n((uint64_t)(int64_t)(rc < 0 ? -1 : rc));
             if (rc >= 0) for (int j = 0; j < n; j++) c.p(x[j]); }},
        {"Corrector", [](Ctx &c) { int k = c.mode ? c.r.below(8) : 3 + c.r.below(24); std::vector<T> p(k), t(k + c.r.below(2)); for (auto &x : p) x = c.t(); for (auto &x : t) x = c.t(); c.p(CS::Corrector::solve(p, t)); }},
        {"Corrector chart", [](Ctx &c) { std::vector<T> p(24); for (auto &x : p) x = c.t(); if (c.r.below(2)) c.p(CS::Corrector::solve(p)); else { const Gamut g = CS::Corrector::makeGamut("camera", p, CS::CIE_D65, c.o()); c.p(g.toXYZ()); c.p(g.fromXYZ()); } }},
        {"util::sqrtf", [](Ctx &c) { for (int i = 0; i < 8; i++) c.p(CS::util::sqrtf(c.f())); }},
        {"ICC profile", [](Ctx &c) {
             const std::vector<uint8_t> v = icc_profile(c);
             const size_t n = v.size();
             std::unique_ptr<uint8_t[]> a(new uint8_t[n ? n : 1]);
             std::copy(v.begin(), v.end(), a.get());
             const Gamut g = CS::loadGamutFromICCProfileMemory(n || c.r.below(2) ? a.get() : nullptr, n);
             c.p(g.toXYZ()); c.p(g.fromXYZ()); c.n(std::string(g.name()));
             c.n((size_t)(n == 0 || memcmp(a.get(), v.data(), n) == 0)); }},
        {"MemoryStream writes", [](Ctx &c) {
             MS m;
             for (int i = 0; i < 20; i++)
                 switch (c.r.below(18))
                 {
                 case 0: m.putUint8((uint8_t)c.r.u64()); break; case 1: m.putInt8((int8_t)c.r.u64()); break;
                 case 2: m.putUint16((uint16_t)c.r.u64()); break; case 3: m.putInt16((int16_t)c.r.u64()); break;
                 case 4: m.putUint32((uint32_t)c.r.u64()); break; case 5: m.putInt32((int32_t)c.r.u64()); break;
                 case 6: m.putUint64(c.r.u64()); break; case 7: m.putInt64((int64_t)c.r.u64()); break;
                 case 8: m.putFloat(c.f()); break; case 9: m.putDouble(c.f()); break;
                 case 10: m.putString(std::string(c.r.below(20), (char)c.r.u64())); break;
                 case 11: m.putSubstr(std::string(c.r.below(20), (char)c.r.u64()), c.r.below(20)); break;
                 case 12: { size_t p = m.putPointer32(); m.putUint8(1); m.adjustPointer32(p); break; }
                 case 13: { size_t p = m.putPointer64(); m.putUint8(1); m.adjustPointer64(p); break; }
                 case 14: m.setWriteEndian(c.r.below(2) ? MS::BIG : MS::LITTLE); break;
                 case 15: m.seekTo(c.r.below((uint32_t)m.buffer().size() + 1)); break;
                 case 16: m.put_at(c.r.below(100), (uint8_t)c.r.u64()); break;
                 case 17: { uint8_t b[16] = {1, 2, 3, 4, 5, 6, 7, 8}; size_t k = c.r.below(17); if (c.r.below(2)) m.write(b, k); else m.write_at(b, k, c.r.below(100)); break; }
                 }
             c.n(m.ftell());
             c.n(std::string(m.buffer().begin(), m.buffer().end())); }},
        {"MemoryStream reads", [](Ctx &c) {
             size_t n = c.r.below(60);
             std::unique_ptr<uint8_t[]> a(new uint8_t[n ? n : 1]);
             for (size_t i = 0; i < n; i++) a[i] = (uint8_t)(c.r.below(3) ? c.r.u64() : (c.r.below(2) ? 0 : 0xff));
             MS m(a.get(), n);
             for (int i = 0; i < 20; i++)
                 switch (c.r.below(18))
                 {
                 case 0: c.n(m.getUint8()); break; case 1: c.n((uint64_t)m.getInt8()); break;
                 case 2: c.n(m.getUint16()); break; case 3: c.n((uint64_t)m.getInt16()); break;
                 case 4: c.n(m.getUint32()); break; case 5: c.n((uint64_t)m.getInt32()); break;
                 case 6: c.n(m.getUint64()); break; case 7: c.n((uint64_t)m.getInt64()); break;
                 case 8: c.p(m.getFloat()); break;
                 case 9: { double d = m.getDouble(); uint64_t u; memcpy(&u, &d, 8); c.n(std::isnan(d) ? 0 : u); break; }
                 case 10: { // the length is whatever the bytes say: skip the absurd ones
                     size_t p = m.ftell();
                     uint32_t len = m.getUint32();
                     m.seekTo(p);
                     if (len < 100000 || len > 0x7fffffffu) c.n(m.get_string());
                     break; }
                 case 11: c.n(m.getSubstr(c.r.below(40))); break;
                 case 12: c.n(m.getPointer32()); break; case 13: c.n(m.getPointer64()); break;
                 case 14: m.setReadEndian(c.r.below(2) ? MS::BIG : MS::LITTLE); break;
                 case 15: m.seekTo(c.r.below((uint32_t)n + 1)); break;
                 case 16: c.n(m.get_at(c.r.below(3) ? c.r.below(100) : c.r.u64())); break;
                 case 17: { std::unique_ptr<uint8_t[]> b(new uint8_t[20]()); size_t k = c.r.below(21); c.n(c.r.below(2) ? m.read(b.get(), k) : m.read_at(b.get(), k, c.r.below(3) ? c.r.below(100) : c.r.u64())); c.n(std::string(b.get(), b.get() + k)); break; }
                 }
             c.n(m.ftell()); c.n(m.feof()); }},
    };
    return v;
}
} // namespace H
