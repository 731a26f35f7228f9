// C11: OKLAB
#include "okref.hpp"
using namespace H;
void run()
{
    Rng r = rng("c11");
    Mon &mt = mon("XYZ to OKLAB"), &mf = mon("OKLAB to XYZ"), &mrt = mon("XYZ round trip"), &mrl = mon("OKLAB round trip"), &mp = mon("published pairs"), &msc = mon("scaling XYZ by k^3 scales OKLAB by k"), &mgrey = mon("D65 neutrals have a = b = 0");
    Cls cneg("negative cone response", 1000), cdark("dark", 1000), chdr("above white", 1000), cneu("neutral", 1000), cprim("one coordinate only", 500), cout("lab outside the usual range", 1000);
    // Ottosson's published table (XYZ -> Lab, three decimals)
    const double T[4][6] = {{0.950, 1, 1.089, 1, 0, 0}, {1, 0, 0, 0.450, 1.236, -0.019}, {0, 1, 0, 0.922, -0.671, 0.263}, {0, 0, 1, 0.153, -1.415, -0.449}};
    for (auto &t : T)
    {
        cur("published", {t[0], t[1], t[2]});
        const Tristimulus o = CS::XYZ_to_OKLAB(Tristimulus((float)t[0], (float)t[1], (float)t[2]));
        for (int i = 0; i < 3; i++) near(mp, o[i], D(t[3 + i], 0), "published pair", K0, 6e-4);
    }
    long n = N(500000);
    for (long it = 0; it < n; it++)
    {
        float x[3];
        int k = r.below(11);
        double s = k == 1 ? r.logf_(1e-12, 1e-2) : (k == 2 ? r.logf_(1, 1e6) : 1);
        if (k == 1) cdark();
        if (k == 2) chdr();
        for (auto &z : x) z = (float)(s * (k == 3 ? r.d(-0.5, 1) : r.d(0, 1.1)));
        if (k == 4) { double g = r.logf_(1e-4, 10); x[0] = (float)(0.9504559 * g); x[1] = (float)g; x[2] = (float)(1.0890578 * g); cneu(); }
        if (k == 5) { int i = r.below(3); for (int j = 0; j < 3; j++) if (j != i) x[j] = 0; cprim(); }
        if (k == 8) for (auto &z : x) z = r.sgn() * r.logf_(1e-6, 1e4);
        if (k == 9) for (auto &z : x) z = r.below(3) ? r.f(0, 1) : 0.f;
        if (k == 10) { double g = r.d(); for (auto &z : x) z = (float)(g * (1 + r.sgn() * r.logf_(1e-6, 1e-1))); }
        cur("OKLAB", {x[0], x[1], x[2]});
        DV dx = dv(D::in(x[0]), D::in(x[1]), D::in(x[2])), l = oklab(dx), lms = dapply(okm1(), dx);
        for (auto &z : lms.a) if (z.v < 0) { cneg(); break; }
        const Tristimulus X(x[0], x[1], x[2]), L = CS::XYZ_to_OKLAB(X), B = CS::OKLAB_to_XYZ(L);
        DV b = unoklab(l);
        for (int i = 0; i < 3; i++)
        {
            near(mt, L[i], l.a[i], "XYZ_to_OKLAB");
            near(mrt, B[i], D(x[i], b.a[i].e), "XYZ -> OKLAB -> XYZ");
        }
        if (k == 4) { double c = std::cbrt(x[1]); near(mgrey, L[0], D(c, 8 * c), "L of a neutral", K0, 2e-4 * c); near(mgrey, L[1], D(0, 8 * c), "a of a neutral", K0, 2e-4 * c); near(mgrey, L[2], D(0, 8 * c), "b of a neutral", K0, 2e-4 * c); }
        if (k == 0)
        {
            const Tristimulus S = CS::XYZ_to_OKLAB(X * 8.f);
            for (int i = 0; i < 3; i++) near(msc, S[i], D(2 * l.a[i].v, 2 * l.a[i].e), "scaled by 8");
        }
        float a[3] = {r.f(0, 1.1), r.f(-0.4, 0.4), r.f(-0.4, 0.4)};
        if (k == 6) { for (auto &z : a) z = r.f(-3, 3); cout(); }
        if (k == 7) { a[r.below(3)] = 0; a[r.below(3)] = 0; }
        if (k == 8) for (auto &z : a) z = r.sgn() * r.logf_(1e-6, 100);
        if (k == 9) { a[1] = r.sgn() * r.logf_(1e-8, 1e-2); a[2] = r.sgn() * r.logf_(1e-8, 1e-2); }
        cur("from OKLAB", {a[0], a[1], a[2]});
        DV da = dv(D::in(a[0]), D::in(a[1]), D::in(a[2])), xx = unoklab(da), bl = oklab(xx);
        const Tristimulus A(a[0], a[1], a[2]), Y = CS::OKLAB_to_XYZ(A), R = CS::XYZ_to_OKLAB(Y);
        for (int i = 0; i < 3; i++) { near(mf, Y[i], xx.a[i], "OKLAB_to_XYZ"); near(mrl, R[i], D(a[i], bl.a[i].e), "OKLAB -> XYZ -> OKLAB"); }
    }
}
