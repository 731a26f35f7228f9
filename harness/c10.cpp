// C10: CIELAB
#include "common.hpp"
using namespace H;
namespace
{
double f(double t) { return t > 1 ? 1 : t > 216.0 / 24389 ? std::cbrt(t) : (24389.0 / 27 * t + 16) / 116; }
double fi(double v) { return v > 1 ? 1 : v > 6.0 / 29 ? v * v * v : (116 * v - 16) * 27.0 / 24389; }
DV lab(const float *t, const float *w)
{
    D q[3];
    for (int i = 0; i < 3; i++) q[i] = dmono(D::in(t[i]) / D::in(w[i]), f, 4);
    return dv(D(116, 0) * q[1] - D(16, 0), D(500, 0) * (q[0] - q[1]), D(200, 0) * (q[1] - q[2]));
}
DV unlab(DV l, const float *w)
{
    D fy = (l.a[0] + D(16, 0)) / D(116, 0), fx = fy + l.a[1] / D(500, 0), fz = fy - l.a[2] / D(200, 0);
    return dv(dmono(fx, fi, 4) * D::in(w[0]), dmono(fy, fi, 4) * D::in(w[1]), dmono(fz, fi, 4) * D::in(w[2]));
}
void cmp(Mon &m, const Tristimulus &t, const DV &d, const char *w, double extra = 0) { for (int i = 0; i < 3; i++) near(m, t[i], d.a[i], w, K0, extra); }
} // namespace
void run()
{
    Rng r = rng("c10");
    Mon &mt = mon("XYZ to CIELAB"), &mf = mon("CIELAB to XYZ"), &mrt = mon("XYZ round trip"), &mrl = mon("CIELAB round trip"), &mw = mon("white and black"), &msat = mon("above white counts as white"),
        &mdef = mon("default white is D50"), &mgrey = mon("neutral colours have a = b = 0"), &mcv = mon("tone curve");
    Cls clin("linear segment (t < 216/24389)", 2000), ccub("cube-root segment", 2000), cbp("at the segment join", 500), cmix("both segments in one colour", 1000), csat("above white", 1000), cneg("negative coordinate", 500), cwh("non-default white", 5000), cgr("neutral", 1000);
    const float d50[3] = {0.9642f, 1.f, 0.8249f};
    auto sample = [&]() -> double {
        switch (r.below(8))
        {
        case 0: return r.d(0, 0.0178);
        case 1: return 216.0 / 24389 * (1 + r.sgn() * (double)r.logf_(1e-7, 1e-2));
        case 2: return r.logf_(1e-9, 1);
        case 3: return r.pick<double>({0, 1, 0.18, 0.5, 216.0 / 24389});
        case 4: return 1 - r.logf_(1e-7, 0.1);
        default: return r.d();
        }
    };
    long n = N(500000);
    for (long it = 0; it < n; it++)
    {
        float w[3] = {d50[0], d50[1], d50[2]};
        int wk = r.below(5);
        if (wk == 1) // the named whites
        {
            static const float W[][2] = {{0.95047f, 1.08883f}, {1.09850f, 0.35585f}, {0.99072f, 0.85223f}, {0.98074f, 1.18232f}, {0.96422f, 0.82521f}, {0.95682f, 0.92149f}, {0.95265f, 1.00883f}, {0.94972f, 1.22638f}, {1.f, 1.f}, {0.99186f, 0.67393f}, {0.95041f, 1.08747f}, {1.00962f, 0.64350f}};
            int q = r.below(3) ? r.below(12) : 0;
            w[0] = W[q][0]; w[2] = W[q][1];
        }
        if (wk == 2) { w[0] = r.f(0.5, 1.5); w[1] = r.f(0.5, 1.5); w[2] = r.f(0.2, 1.6); }
        if (wk == 3) { double s = r.logf_(0.01, 1000); w[0] = (float)(s * r.d(0.8, 1.2)); w[1] = (float)s; w[2] = (float)(s * r.d(0.3, 1.3)); }
        if (wk == 4) for (auto &z : w) z = r.logf_(1e-3, 1e3);
        if (wk) cwh();
        float t[3];
        double q[3];
        int kind = r.below(10);
        for (int i = 0; i < 3; i++) q[i] = sample();
        if (kind == 0) { q[0] = q[1] = q[2]; cgr(); }
        if (kind == 1) { q[r.below(3)] = r.d(1, 5); csat(); }
        if (kind == 2) { q[r.below(3)] = -r.logf_(1e-5, 2); if (r.below(3) == 0) q[r.below(3)] = -r.logf_(1e-5, 2); cneg(); }
        if (kind == 3) for (auto &z : q) if (r.below(2)) z = 0;
        if (kind == 4) { int i = r.below(3); q[(i + 1) % 3] = q[i]; }
        int nl = 0;
        for (int i = 0; i < 3; i++) { t[i] = (float)(q[i] * w[i]); if (q[i] < 216.0 / 24389) nl++; if (std::fabs(q[i] * 24389 / 216 - 1) < 1e-3) cbp(); }
        if (nl == 3) clin(); else if (nl == 0) ccub(); else cmix();
        cur("CIELAB", {t[0], t[1], t[2], w[0], w[1], w[2]});
        const Tristimulus T(t[0], t[1], t[2]), W(w[0], w[1], w[2]);
        DV l = lab(t, w);
        Mon &m = kind == 1 ? msat : mt;
        const Tristimulus L1 = T.toCIELAB(W);
        cmp(m, L1, l, "toCIELAB"); cmp(m, Tristimulus::toCIELAB(T, W), l, "toCIELAB (static)");
        if (wk == 0) { cmp(mdef, T.toCIELAB(), l, "toCIELAB()"); cmp(mdef, Tristimulus(l.a[0].v, l.a[1].v, l.a[2].v).fromCIELAB(), unlab(dv(D((float)l.a[0].v), D((float)l.a[1].v), D((float)l.a[2].v)), w), "fromCIELAB()"); }
        if (kind == 0) { near(mgrey, L1[1], D(0, l.a[1].e), "a of a neutral"); near(mgrey, L1[2], D(0, l.a[2].e), "b of a neutral"); }
        if (kind != 1)
        {
            DV b = unlab(l, w);
            const Tristimulus B = L1.fromCIELAB(W);
            for (int i = 0; i < 3; i++) near(mrt, B[i], D(t[i], b.a[i].e), "XYZ -> Lab -> XYZ");
        }
        for (int i = 0; i < 3; i++)
        {
            float z = (float)q[i];
            near(mcv, Tristimulus::CIELAB_curve(z), dmono(D::in(z), f, 4), "curve", K0, 1e-7);
            float v = (float)f(q[i]);
            near(mcv, Tristimulus::CIELAB_decurve(v), dmono(D::in(v), fi, 4), "inverse curve", K0, 5e-8);
        }
        // from Lab
        float a[3] = {inrange(r, 0, 100, {8.f, 0.f, 50.f, 100.f}), r.f(-60, 60), r.f(-60, 60)};
        if (r.below(6) == 0) { a[1] = r.f(-128, 128); a[2] = r.f(-128, 128); }
        if (r.below(10) == 0) a[1] = a[2] = 0;
        if (r.below(10) == 0) a[1 + r.below(2)] = 0;
        if (r.below(8) == 0) a[0] = r.f(-20, 150);
        if (r.below(8) == 0) { a[1] = r.sgn() * r.logf_(1e-6, 300); a[2] = r.sgn() * r.logf_(1e-6, 300); }
        cur("Lab", {a[0], a[1], a[2], w[0], w[1], w[2]});
        DV dl = dv(D::in(a[0]), D::in(a[1]), D::in(a[2]));
        const Tristimulus A(a[0], a[1], a[2]), X = A.fromCIELAB(W);
        DV x = unlab(dl, w);
        cmp(mf, X, x, "fromCIELAB"); cmp(mf, Tristimulus::fromCIELAB(A, W), x, "fromCIELAB (static)");
        if (wk == 0) cmp(mdef, A.fromCIELAB(), x, "fromCIELAB()");
        double fy = (a[0] + 16.0) / 116, fx = fy + a[1] / 500.0, fz = fy - a[2] / 200.0;
        if (fx < 0.99999 && fz < 0.99999 && a[0] <= 100)
        {
            D qq[3];
            for (int i = 0; i < 3; i++) qq[i] = dmono(x.a[i] / D::in(w[i]), f, 4);
            DV ll = dv(D(116, 0) * qq[1] - D(16, 0), D(500, 0) * (qq[0] - qq[1]), D(200, 0) * (qq[1] - qq[2]));
            const Tristimulus R = X.toCIELAB(W);
            for (int i = 0; i < 3; i++) near(mrl, R[i], D(a[i], ll.a[i].e), "Lab -> XYZ -> Lab");
        }
        if (it % 8 == 0)
        {
            cur("white", {w[0], w[1], w[2]});
            const Tristimulus lw = W.toCIELAB(W), lb = Tristimulus(0.f, 0.f, 0.f).toCIELAB(W), xw = Tristimulus(100.f, 0.f, 0.f).fromCIELAB(W), xb = Tristimulus(0.f, 0.f, 0.f).fromCIELAB(W);
            const float e[3] = {100, 0, 0};
            for (int i = 0; i < 3; i++)
            {
                near(mw, lw[i], D(e[i], 100), "Lab of white"); near(mw, lb[i], D(0, 20), "Lab of black");
                near(mw, xw[i], D(w[i], 4 * w[i]), "XYZ of L=100"); near(mw, xb[i], D(0, 4 * w[i]), "XYZ of L=0");
            }
        }
    }
}
