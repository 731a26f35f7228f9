// C12: ICtCp
#include "okref.hpp"
using namespace H;
void run()
{
    Rng r = rng("c12");
    Mon &mt = mon("XYZ to ICtCp"), &mf = mon("ICtCp to XYZ"), &mrt = mon("XYZ round trip"), &mri = mon("ICtCp round trip"), &mn = mon("neutral D65"), &mb = mon("black"), &mfin = mon("finite");
    Cls cneu("neutral", 1000), cdark("dark", 2000), chdr("HDR highlights", 2000), cclip("clipped cone response", 200), cwide("saturated", 500), cany("any signs and sizes", 500), cax("coordinates exactly zero", 500);
    DM H_ = hpe(), Hi = dinv(H_);
    long n = N(300000);
    for (long it = 0; it < n; it++)
    {
        float x[3];
        int k = r.below(8);
        if (k == 0) { double g = r.logf_(1e-4, 90); x[0] = (float)(0.95047 * g); x[1] = (float)g; x[2] = (float)(1.08883 * g); cneu(); }
        else
        {
            // draw the cone responses, so that they are in the curve's domain
            double lo = k == 1 ? 1e-6 : (k == 2 ? 1 : 1e-3), hi = k == 1 ? 1e-2 : (k == 2 ? 99 : 10);
            double base = r.logf_(lo, hi), l[3];
            for (auto &z : l) z = std::min(99.5, base * (k == 3 ? r.logf_(0.05, 20) : r.d(0.7, 1.4)));
            if (k == 1) cdark();
            if (k == 2) chdr();
            if (k == 3) cwide();
            DV d = dapply(Hi, dv(D(l[0]), D(l[1]), D(l[2])));
            for (int i = 0; i < 3; i++) x[i] = (float)d.a[i].v;
            if (k == 4) { for (auto &z : x) z = r.f(0, 1); }
            if (k == 5 && r.below(2) == 0) { for (auto &z : x) z = r.f(-1, 300); cclip(); }
            if (k == 6 && r.below(2) == 0) { for (auto &z : x) z = r.sgn() * r.logf_(1e-5, 1e4); cany(); }
            if (k == 7 && r.below(2) == 0) { for (auto &z : x) z = r.below(3) ? r.logf_(1e-3, 1e2) : 0.f; cax(); }
        }
        cur("ICtCp", {x[0], x[1], x[2]});
        DV dx = dv(D::in(x[0]), D::in(x[1]), D::in(x[2])), lms = dapply(H_, dx), c = ictcp(dx);
        bool clip = false;
        for (auto &z : lms.a) if (z.v <= 0 || z.v >= 99.9) clip = true;
        const Tristimulus X(x[0], x[1], x[2]), C = CS::XYZ_to_ICtCp(X);
        check(mfin, std::isfinite(C[0]) && std::isfinite(C[1]) && std::isfinite(C[2]), "not finite");
        for (int i = 0; i < 3; i++) near(mt, C[i], c.a[i], "XYZ_to_ICtCp");
        if (k == 0) { near(mn, C[1], D(0, 0), "Ct of a neutral", 0, 3e-3); near(mn, C[2], D(0, 0), "Cp of a neutral", 0, 3e-3); near(mn, C[0], D(pq::enc(x[1]), 0), "I of a neutral", 0, 1e-3); }
        if (!clip)
        {
            const Tristimulus B = CS::ICtCp_to_XYZ(C);
            DV b = unictcp(c);
            for (int i = 0; i < 3; i++) near(mrt, B[i], D(x[i], b.a[i].e), "XYZ -> ICtCp -> XYZ");
        }
        // from ICtCp: draw the three PQ codes
        double base = r.d(0.02, 0.97), p[3];
        for (auto &z : p) z = std::min(0.999, std::max(0.005, base + r.d(-0.15, 0.15) * (r.below(3) ? 0.2 : 1)));
        if (r.below(12) == 0) p[1] = p[2] = p[0];
        DV dc = dapply(ictm(), dv(D(p[0]), D(p[1]), D(p[2])));
        float a[3];
        for (int i = 0; i < 3; i++) a[i] = (float)dc.a[i].v;
        cur("from ICtCp", {a[0], a[1], a[2]});
        DV da = dv(D::in(a[0]), D::in(a[1]), D::in(a[2])), y = unictcp(da);
        const Tristimulus A(a[0], a[1], a[2]), Y = CS::ICtCp_to_XYZ(A), R = CS::XYZ_to_ICtCp(Y);
        for (int i = 0; i < 3; i++) near(mf, Y[i], y.a[i], "ICtCp_to_XYZ");
        for (int i = 0; i < 3; i++) near(mri, R[i], D(a[i], 0), "ICtCp -> XYZ -> ICtCp", 0, 4 * PQ_NOISE * (i ? 4 : 1));
    }
    cur("black", {0, 0, 0});
    const Tristimulus b = CS::XYZ_to_ICtCp(Tristimulus(0.f, 0.f, 0.f)), z = CS::ICtCp_to_XYZ(Tristimulus(0.f, 0.f, 0.f));
    for (int i = 0; i < 3; i++) { near(mb, b[i], D(0, 1), "black"); near(mb, z[i], D(0, 1), "black back"); }
}
