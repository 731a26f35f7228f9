// C18: blackbody spectra, the Planckian locus and correlated colour temperature
#include "common.hpp"
using namespace H;
namespace
{
double planckref(double T, double l, double &rel)
{
    const double h = 6.62607015e-34, c = 2.99792458e8, k = 1.380649e-23; // CODATA 2018; older sets differ by < 1e-6
    double x = h * c / (k * l * T);
    rel = 3e-6 + 1.5e-6 * x;
    return 2 * h * c * c / std::pow(l, 5) / std::expm1(x) / 1e9;
}
// Kim et al. cubic spline of the Planckian locus; br: 0 below 2222 K, 1 up to 4000 K, 2 above
void kim(float Tf, int br, D &x, D &y)
{
    D T = D::in(Tf);
    if (br < 2) x = (D(-0.2661239e9) / (T * T * T)) - (D(0.2343580e6) / (T * T)) + (D(0.8776956e3) / T) + D(0.179910);
    else x = (D(-3.0258469e9) / (T * T * T)) + (D(2.1070379e6) / (T * T)) + (D(0.2226347e3) / T) + D(0.240390);
    static const double k[3][4] = {{-1.1063814, -1.34811020, 2.18555832, -0.20219683}, {-0.9549476, -1.37418593, 2.09137015, -0.16748867}, {3.0817580, -5.87338670, 3.75112997, -0.37001483}};
    const double *q = k[br];
    y = D(q[0]) * x * x * x + D(q[1]) * x * x + D(q[2]) * x + D(q[3]);
}
// the library's polynomial fit of the locus
double bx(double T) { return 0.811973208 + T * (-0.00016747 + T * (0.00000000331067 + T * (0.00000000000690001 + T * (-1.39671E-15 + T * (1.11951E-19 + T * -3.31672E-24))))); }
double by(double T) { return 0.136977825 + T * (0.000317653 + T * (-0.000000127946 + T * (0.0000000000222415 + T * (-1.81438E-15 + T * 5.67564E-20)))); }
void uv(double x, double y, double &u, double &v) { double d = -2 * x + 12 * y + 3; u = 4 * x / d; v = 6 * y / d; }
struct XY { double x, y; };
XY xyof(const Tristimulus &t) { double s = (double)t[0] + t[1] + t[2]; return {t[0] / s, t[1] / s}; }
} // namespace
void run()
{
    Rng r = rng("c18");
    Mon &mp = mon("Planck's law"), &mb = mon("blackbody bins"), &mw = mon("Wien: the peak is at b/T"), &mt = mon("hotter is brighter at every wavelength"),
        &mk = mon("fromPlanckianLocus = published cubic"), &mtrue = mon("locus approximations lie on the blackbody locus"), &mx = mon("locus x falls with temperature"), &mc = mon("fromCT = polynomial fit"),
        &my = mon("Y is the luminance asked for"), &md = mon("fromCCT is |dUV| from the locus"), &mper = mon("fromCCT moves perpendicular to the locus"), &ms = mon("positive dUV lies above the locus"), &m0 = mon("dUV 0 is the locus point"), &mdef = mon("defaults");
    Cls clow("below 2222 K", 200), cmid("2222-4000 K", 200), chi("above 4000 K", 200), cedge("at 2222 or 4000 K", 100), cpeak("peak inside 380..779", 50), cpos("positive dUV", 500), cneg("negative dUV", 500), cY("Y != 1", 500);
    long n = N(60000);
    for (long it = 0; it < n; it++)
    {
        double T = r.below(3) ? r.d(1000, 12000) : r.logf_(150, 1e6), l = r.below(3) ? r.d(380e-9, 780e-9) : r.logf_(100e-9, 10e-6);
        cur("planck", {T, l});
        double rel, ref = planckref(T, l, rel);
        near(mp, Spectrum::planck(T, l), D(ref, 0), "planck", 0, rel * ref + 1e-44);
        double T2 = T * r.d(1.001, 1.5), rel2, ref2 = planckref(T2, l, rel2);
        also({T2});
        if (ref2 > ref * (1 + rel + rel2) && ref > 1e-25 && ref2 < 1e20) check(mt, Spectrum::planck(T2, l) > Spectrum::planck(T, l), "hotter body is not brighter");
    }
    n = N(600);
    for (long it = 0; it < n; it++)
    {
        float T = r.below(3) ? r.f(1000, 12000) : r.logf_(200, 1e6);
        if (r.below(4) == 0) T = r.below(2) ? 50.f * (20 + r.below(500)) : r.pick<float>({1900.f, 2700.f, 2848.f, 2854.f, 2855.5f, 2856.f, 3000.f, 3200.f, 3400.f, 4000.f, 4100.f, 5000.f, 5003.f, 5500.f, 5503.f, 5600.f, 5778.f, 6000.f, 6500.f, 6504.f, 7500.f, 7504.f, 9300.f, 10000.f}); // temperatures people ask for
        cur("blackbody", {T});
        const Spectrum S = Spectrum::blackbody(T);
        int best = 0;
        for (int i = 0; i < 400; i++)
        {
            double rel, ref = planckref(T, (380 + i) * 1e-9, rel);
            near(mb, S[i], D(ref, 0), "bin", 0, (rel + 2e-6) * ref + 1e-40);
            if (S[i] > S[best]) best = i;
        }
        double peak = 2.897771955e-3 / T * 1e9;
        if (peak > 383 && peak < 776) { cpeak(); check(mw, std::fabs(380 + best - peak) <= 1.5, "peak wavelength"); }
        // chromaticity of the radiator through the CIE 1931 observer: both locus approximations are within their fit error
        if (T >= 1700 && T <= 10000)
        {
            XY t = xyof(CS::CIE1931.fromSpectrum(S)), k = xyof(Tristimulus::fromPlanckianLocus(T)), c = xyof(Tristimulus::fromCT(T));
            double tol = 0.004;
            near(mtrue, k.x, D(t.x, 0), "fromPlanckianLocus x", 0, tol); near(mtrue, k.y, D(t.y, 0), "fromPlanckianLocus y", 0, tol);
            near(mtrue, c.x, D(t.x, 0), "fromCT x", 0, tol); near(mtrue, c.y, D(t.y, 0), "fromCT y", 0, tol);
        }
    }
    n = N(80000);
    for (long it = 0; it < n; it++)
    {
        float Y = r.below(3) ? (cY(), r.below(4) ? r.logf_(1e-4, 1e4) : r.logf_(1e-8, 1e8)) : 1.f;
        if (r.below(20) == 0) Y = r.pick<float>({0.5f, 2.f, 100.f, 80.f});
        // cubic spline
        float T;
        switch (r.below(6))
        {
        case 0: T = r.f(1667, 2222); break;
        case 1: T = r.f(2222, 4000); break;
        case 2: T = r.f(4000, 25000); break;
        case 3: T = ulps(r.pick<float>({2222.f, 4000.f}), (int)r.below(41) - 20); cedge(); break;
        case 4: T = (float)(1667 + r.below(23334)); break;
        default: T = r.logf_(1667, 25000);
        }
        (T < 2222 ? clow : (T < 4000 ? cmid : chi))();
        cur("fromPlanckianLocus", {T, Y});
        const Tristimulus g = Tristimulus::fromPlanckianLocus(T, Y);
        int nb = 1, br[2] = {T < 2222 ? 0 : (T < 4000 ? 1 : 2), 0};
        if (std::fabs(T - 2222.0) < 0.01) { nb = 2; br[0] = 0; br[1] = 1; }
        if (std::fabs(T - 4000.0) < 0.01) { nb = 2; br[0] = 1; br[1] = 2; }
        bool ok = false;
        std::string why;
        for (int b = 0; b < nb; b++)
        {
            D x, y;
            kim(T, br[b], x, y);
            D yy = D::in(Y), rx = x * yy / y, rz = (D(1, 0) - x - y) * yy / y;
            double d0 = std::fabs(g[0] - rx.v), d2 = std::fabs(g[2] - rz.v);
            if (d0 <= K0 * EPS * rx.e && d2 <= K0 * EPS * rz.e) ok = true;
            else why = fmt("got %.9g %.9g, expected X %.9g +- %.2g, Z %.9g +- %.2g", g[0], g[2], rx.v, K0 * EPS * rx.e, rz.v, K0 * EPS * rz.e);
        }
        check(mk, ok, why.c_str());
        near(my, g[1], D(Y, std::fabs(Y)), "Y");
        if (it % 8 == 0)
        {
            const Tristimulus d1 = Tristimulus::fromPlanckianLocus(T), d2 = Tristimulus::fromPlanckianLocus(T, 1.f);
            for (int i = 0; i < 3; i++) near(mdef, d1[i], D(d2[i], std::fabs(d2[i])), "default Y is 1");
            float T2 = T + r.f(60, 500);
            if (T2 <= 25000) { also({T2}); check(mx, xyof(Tristimulus::fromPlanckianLocus(T2)).x < xyof(d1).x, "x does not fall"); }
        }
        // polynomial fit
        float Tc = inrange(r, 1700, 10000, {2856, 4000, 5003, 6504});
        cur("fromCT", {Tc, Y});
        const Tristimulus c = Tristimulus::fromCT(Tc, Y);
        XY p = xyof(c);
        near(mc, p.x, D(bx(Tc), 0), "x", 0, 3e-6); near(mc, p.y, D(by(Tc), 0), "y", 0, 3e-6);
        near(my, c[1], D(Y, std::fabs(Y)), "Y");
        if (it % 8 == 0)
        {
            const Tristimulus d1 = Tristimulus::fromCT(Tc), d2 = Tristimulus::fromCT(Tc, 1.f);
            for (int i = 0; i < 3; i++) near(mdef, d1[i], D(d2[i], std::fabs(d2[i])), "default Y is 1");
            float T2 = Tc + r.f(60, 500);
            if (T2 <= 10000) { also({T2}); check(mx, xyof(Tristimulus::fromCT(T2)).x < xyof(d1).x, "x does not fall"); }
        }
        // distance from the locus
        float duv = r.below(10) ? r.sgn() * r.logf_(1e-5, r.below(4) ? 0.03 : 0.1) : 0.f;
        if (duv > 0) cpos(); else if (duv < 0) cneg();
        cur("fromCCT", {Tc, duv, Y});
        const Tristimulus q = Tristimulus::fromCCT(Tc, duv, Y);
        near(my, q[1], D(Y, std::fabs(Y)), "Y");
        double u0, v0, ua, va, ub, vb, u1, v1;
        uv(bx(Tc), by(Tc), u0, v0);
        uv(bx(Tc - 1.0), by(Tc - 1.0), ua, va);
        uv(bx(Tc + 0.5), by(Tc + 0.5), ub, vb);
        XY qq = xyof(q);
        uv(qq.x, qq.y, u1, v1);
        // tangent towards lower temperature over the library's 1 K step; float noise of the end points tilts it
        double tx = ua - u0, ty = va - v0, step = std::hypot(tx, ty);
        tx /= step; ty /= step;
        double noise = 4 * EPS / step, base = 2e-6, ex = u1 - u0, ey = v1 - v0, dist = std::hypot(ex, ey), along = ex * tx + ey * ty, across = -ex * ty + ey * tx;
        near(md, dist, D(std::fabs(duv), 0), "distance in CIE 1960 uv", 0, base + 2e-6 * std::fabs(duv));
        near(mper, along, D(0, 0), "along the locus", 0, base + std::fabs(duv) * noise);
        if (std::fabs(duv) > 2 * base && noise < 0.5) { check(ms, (across > 0) == (duv > 0), "wrong side of the locus"); check(ms, (v1 > v0) == (duv > 0), "v on the wrong side"); }
        if (duv == 0) { near(m0, q[0], D(c[0], std::fabs(c[0])), "X", 8, 0); near(m0, q[2], D(c[2], std::fabs(c[2])), "Z", 16, 2e-6 * Y); }
    }
}
