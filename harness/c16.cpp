// C16: spectrum algebra, observers, photometry
#include "common.hpp"
using namespace H;
namespace
{
typedef std::array<float, 400> A;
typedef CS::Observer Obs;
A gen(Rng &r, int k)
{
    A a;
    double p = r.d(0.002, 0.1), q = r.d(0, 6), s = r.below(4) ? r.logf_(1e-3, 1e3) : r.logf_(1e-10, 1e9);
    int c = r.below(400), w = 1 + r.below(60);
    for (int i = 0; i < 400; i++) switch (k)
    {
    case 0: a[i] = r.f(0, 1); break;
    case 1: a[i] = (float)(s * (1 + std::sin(p * i + q))); break;
    case 2: a[i] = (i >= c && i < c + w) ? (float)s : 0.f; break;
    case 3: a[i] = i == c ? (float)s : 0.f; break;
    case 4: a[i] = r.f(-1, 1) * (c & 1 ? (float)s : 1.f); break;
    case 11: a[i] = (float)((int)r.below(17) - 8); break; // small integers: every summation order is exact
    case 12: a[i] = (float)(r.below(20) ? 0 : (int)r.below(17) - 8); break;
    case 13: a[i] = (float)r.below(9); break;
    case 6: a[i] = (float)(s * r.d()); break;
    case 7: a[i] = i % 2 == c % 2 ? (float)s : 0.f; break;
    case 8: a[i] = (float)(s * i); break;
    case 9: a[i] = 0; break;
    default: a[i] = (float)s;
    }
    return a;
}
// any summation order of n float terms
constexpr double SUM = 400 * EPS;
struct Acc
{
    double v = 0, m = 0;
    bool whole = true; // integers small enough that no order of summation rounds
    void add(double t) { v += t; m += std::fabs(t); whole = whole && t == std::rint(t); }
    double tol() const { return whole && m < 16777216.0 ? 0 : SUM * m + 1e-43; }
};
void signed_(Rng &r, A &a)
{
    const A keep = a;
    if (r.below(2)) { int c = r.below(400), w = r.below(80); for (int i = c; i < std::min(400, c + w); i++) a[i] = -a[i]; }
    if (r.below(2)) for (auto &v : a) v = -v;
    double v = 0, m = 0;
    for (float q : a) { v += q; m += std::fabs(q); }
    if (std::fabs(v) < 0.1 * m) a = keep; // the integral must not vanish
}
A tab(const Spectrum &s) { A a; for (int i = 0; i < 400; i++) a[i] = s[i]; return a; }
} // namespace
void run()
{
    Rng r = rng("c16");
    Mon &me = mon("element-wise add, multiply, scale"), &ms = mon("sum"), &md = mon("dot products"), &mE = mon("equal-energy spectrum"), &mo = mon("observer integrates emission"), &mr = mon("observer integrates reflectance and light"), &mn = mon("equal energy is (1,1,1)"), &mbin = mon("every bin counts, once, at its wavelength"), &mph = mon("photometric units"), &mx = mon("monochromatic response"), &mlin = mon("observer is linear");
    Cls cb("single-bin spectra, all bins and observers", 1200), co("custom observers", 50), cneg("spectra with negative bins", 100), cband("band spectra", 100), cedge("first and last bin", 12), cmono("monochromatic wavelengths", 2000), calias("equal operands", 50), cout("wavelengths outside the range", 100), csig("observers with negative values", 50), cmix("observers mixed from built-in parts", 50);
    const Obs *obs[3] = {&CS::CIE1931, &CS::CIE31JV, &CS::CIE2012};
    const Spectrum *cm[3][3] = {{&CS::CIE1931_X, &CS::CIE1931_Y, &CS::CIE1931_Z}, {&CS::CIE1931_JuddVos_X, &CS::CIE1931_JuddVos_Y, &CS::CIE1931_JuddVos_Z}, {&CS::CIE2012_X, &CS::CIE2012_Y, &CS::CIE2012_Z}};
    auto integ = [&](const A &s, const A *l, const Spectrum *const *c, D *o) {
        for (int k = 0; k < 3; k++)
        {
            Acc a, n;
            for (int i = 0; i < 400; i++) { a.add((double)s[i] * (l ? (*l)[i] : 1.0) * (*c[k])[i]); n.add((*c[k])[i]); }
            o[k] = D(a.v / n.v, (a.tol() / std::fabs(n.v) + std::fabs(a.v / n.v) * n.tol() / std::fabs(n.v)) / EPS + 2 * std::fabs(a.v / n.v));
        }
    };
    // every bin, every observer
    for (int o = 0; o < 3; o++) for (int i = opt.shard; i < 400; i += opt.shards)
    {
        A a{};
        float w = r.below(2) ? r.logf_(1e-2, 1e2) : r.sgn() * r.logf_(1e-8, 1e8), lw = r.logf_(1e-2, 1e2);
        a[i] = w;
        cb();
        if (i == 0 || i == 399) cedge();
        cur("single bin", {(double)o, 380.0 + i, w, lw});
        const Spectrum S(a), E = Spectrum::E(lw);
        const Tristimulus t = obs[o]->fromSpectrum(S), u = obs[o]->fromReflectanceAndLight(S, E), v = obs[o]->fromReflectanceAndLight(E, S);
        for (int k = 0; k < 3; k++)
        {
            Acc n;
            for (int j = 0; j < 400; j++) n.add((*cm[o][k])[j]);
            double x = (double)w * (*cm[o][k])[i] / n.v;
            near(mbin, t[k], D(x, 0), "emission in one bin", 0, (SUM + 8 * EPS) * std::fabs(x) + 1e-43);
            near(mbin, u[k], D(x * lw, 0), "reflectance in one bin", 0, (SUM + 8 * EPS) * std::fabs(x * lw) + 1e-43);
            near(mbin, v[k], D(x * lw, 0), "light in one bin", 0, (SUM + 8 * EPS) * std::fabs(x * lw) + 1e-43);
        }
        same(mbin, S.sum(), w, "sum of one bin");
        near(mbin, S.dot(E), D::in(w) * D::in(lw), "dot of one bin"); near(mbin, E.dot(S), D::in(w) * D::in(lw), "dot of one bin");
    }
    long n = N(12000);
    for (long it = 0; it < n; it++)
    {
        int k1 = r.below(14), k2 = r.below(14), k3 = r.below(14); // 5 and 10 are flat
        if (r.below(8) == 0) k1 = 11 + r.below(3), k2 = 11 + r.below(3), k3 = 11 + r.below(3);
        A a = gen(r, k1), b = gen(r, k2), c = gen(r, k3);
        if (r.below(10) == 0) { b = a; if (r.below(2)) c = a; calias(); }
        if (k1 == 4 || k2 == 4) cneg();
        if (k1 == 2) cband();
        float s = r.below(4) ? r.f(-3, 3) : r.pick<float>({0.f, 1.f, -1.f, 683.f});
        cur("spectra", {(double)k1, (double)k2, (double)k3, a[0], a[199], a[399], b[0], b[199], b[399], s});
        const Spectrum SA(a), SBs(b), SC(c);
        const Spectrum &SB = a == b ? SA : SBs; // the very same object when equal
        const Spectrum add1 = SA + SB, add2 = Spectrum::add(SA, SB), mu1 = SA * SB, mu2 = Spectrum::mul(SA, SB), sc1 = SA * s, sc2 = Spectrum::mul(SA, s), E = Spectrum::E(s), E1 = Spectrum::E();
        Acc sum, dot, dot3;
        for (int i = 0; i < 400; i++)
        {
            D x = D::in(a[i]), y = D::in(b[i]), z = D::in(s);
            near(me, add1[i], x + y, "operator+"); near(me, add2[i], x + y, "add"); near(me, mu1[i], x * y, "operator*"); near(me, mu2[i], x * y, "mul");
            near(me, sc1[i], x * z, "operator* scalar"); near(me, sc2[i], x * z, "mul scalar");
            same(mE, E[i], s, "E(e)"); same(mE, E1[i], 1, "E()");
            sum.add(a[i]); dot.add((double)a[i] * b[i]); dot3.add((double)a[i] * b[i] * c[i]);
        }
        near(ms, SA.sum(), D(sum.v, 0), "sum", 0, sum.tol()); near(ms, Spectrum::sum(SA), D(sum.v, 0), "sum (static)", 0, sum.tol());
        near(md, SA.dot(SB), D(dot.v, 0), "dot", 0, dot.tol()); near(md, Spectrum::dot(SA, SB), D(dot.v, 0), "dot (static)", 0, dot.tol());
        near(md, Spectrum::dot3(SA, SB, SC), D(dot3.v, 0), "dot3", 0, dot3.tol() * 2);
        // observers: the built-in ones and custom ones
        int o = r.below(4);
        D ref1[3], ref2[3];
        auto kind = [&]() { return r.below(4) ? (int)r.below(2) : r.pick<int>({2, 3, 5, 6, 7, 13, 13}); };
        A x = gen(r, kind()), y = gen(r, kind()), z = gen(r, kind());
        if (r.below(8) == 0) { z = y; if (r.below(2)) x = y; }
        if (r.below(5) == 0) { csig(); for (A *q : {&x, &y, &z}) if (r.below(3)) signed_(r, *q); } // matching functions with negative lobes, or negative altogether
        const bool mix = r.below(5) == 0; // parts of the built-in observers
        if (mix) { cmix(); for (A *q : {&x, &y, &z}) if (r.below(4)) *q = tab(*cm[r.below(3)][q == &x ? 0 : q == &y ? 1 : 2]); }
        const Spectrum X(x), Y(y), Z(z);
        std::unique_ptr<Obs> custom;
        const Obs *ob;
        const Spectrum *cc[3] = {&X, &Y, &Z};
        if (o == 3) { custom.reset(new Obs(X, Y, Z)); ob = custom.get(); co(); }
        else { ob = obs[o]; for (int k = 0; k < 3; k++) cc[k] = cm[o][k]; }
        integ(a, nullptr, cc, ref1);
        integ(a, &b, cc, ref2);
        const Tristimulus t1 = ob->fromSpectrum(SA), t2 = ob->fromReflectanceAndLight(SA, SB), raw = Obs::SpectrumIntegrate(SA, *cc[0], *cc[1], *cc[2]), raw3 = Obs::SpectrumIntegrate3(SA, SB, *cc[0], *cc[1], *cc[2]), te = ob->fromSpectrum(E1), te2 = ob->fromReflectanceAndLight(E1, E1);
        const Tristimulus sc = ob->fromSpectrum(SA * 4.f), su = ob->fromSpectrum(SA + SB), tb = ob->fromSpectrum(SB);
        D refb[3], refs[3];
        A ab;
        for (int i = 0; i < 400; i++) ab[i] = (float)((double)a[i] + b[i]);
        integ(b, nullptr, cc, refb);
        integ(ab, nullptr, cc, refs);
        for (int k = 0; k < 3; k++)
        {
            near(mo, t1[k], ref1[k], "fromSpectrum", 1); near(mr, t2[k], ref2[k], "fromReflectanceAndLight", 1.2);
            Acc q, q3, qn;
            for (int i = 0; i < 400; i++) qn.add((*cc[k])[i]);
            const double cf = qn.m / std::fabs(qn.v); // 1 for functions of one sign
            for (int i = 0; i < 400; i++) { q.add((double)a[i] * (*cc[k])[i]); q3.add((double)a[i] * b[i] * (*cc[k])[i]); }
            near(mo, raw[k], D(q.v, 0), "SpectrumIntegrate", 0, q.tol()); near(mr, raw3[k], D(q3.v, 0), "SpectrumIntegrate3", 0, 2 * q3.tol());
            near(mn, te[k], D(1, 0), "equal energy", 0, 2 * SUM * cf); near(mn, te2[k], D(1, 0), "equal energy reflectance", 0, 2 * SUM * cf);
            near(mlin, sc[k], D(4.0 * ref1[k].v, 4 * ref1[k].e), "scaled", 1); 
            double lost = 0; // by rounding the bins of the combined spectrum
            for (int i = 0; i < 400; i++) lost += EPS * std::fabs((double)ab[i] * (*cc[k])[i] / qn.v);
            near(mlin, su[k], D(ref1[k].v + refb[k].v, ref1[k].e + refb[k].e + refs[k].e), "sum", 1.5, lost);
        }
        // monochromatic
        for (int j = 0; j < 8; j++)
        {
            float l = r.below(3) == 0 ? 380.f + r.below(400) : r.f(380, 779), wt = r.below(8) ? r.logf_(1e-3, 1e3) : r.pick<float>({0.f, 1.f, -1.f, 1e-9f, 1e9f});
            if (r.below(10) == 0) { l = r.below(4) == 0 ? r.pick<float>({0.f, 379.99997f, 779.00006f, 1e9f, -1e9f, -380.f}) : r.below(2) ? r.f(100, 380) : r.f(779, 2000); cout(); }
            cmono();
            cur("monochromatic", {(double)o, l, wt});
            double u = std::min(399.0, std::max(0.0, (double)l - 380));
            int i = std::min(398, (int)u);
            double v[3], tol[3], nn[3], cf[3];
            for (int k = 0; k < 3; k++)
            {
                const Spectrum &q = *cc[k];
                v[k] = q[i] + (u - i) * ((double)q[i + 1] - q[i]);
                double sl = 0, mg = 0;
                for (int w2 = std::max(0, i - 1); w2 <= std::min(398, i + 1); w2++) { sl = std::max(sl, std::fabs((double)q[w2 + 1] - q[w2])); mg = std::max({mg, (double)std::fabs(q[w2]), (double)std::fabs(q[w2 + 1])}); }
                tol[k] = sl * 4e-4 + 8 * EPS * mg;
                Acc a2;
                for (int w2 = 0; w2 < 400; w2++) a2.add(q[w2]);
                nn[k] = a2.v;
                cf[k] = a2.m / std::fabs(a2.v);
            }
            near(mph, ob->lumensFromMonochromaticFlux(l, wt), D(v[1] * wt * 683, 0), "lumens", 0, tol[1] * std::fabs(wt) * 683);
            const Tristimulus cd = ob->candellasFromMonochromaticRadiance(l, wt), xy = ob->xyz(l);
            for (int k = 0; k < 3; k++)
            {
                near(mph, cd[k], D(v[k] * wt * 683, 0), "candela", 0, tol[k] * std::fabs(wt) * 683);
                near(mx, xy[k], D(v[k] / nn[k], 0), "xyz(lambda)", 0, tol[k] / std::fabs(nn[k]) + 2 * SUM * cf[k] * std::fabs(v[k] / nn[k]));
            }
        }
    }
}
