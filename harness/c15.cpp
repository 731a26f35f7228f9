// C15: sampling a spectrum: 400 bins of 1 nm from 380 nm, linear interpolation, clamped ends
#include "common.hpp"
using namespace H;
namespace
{
// piecewise-linear value at t, and how much it can move when the abscissa carries float noise
void ref(const std::vector<float> &s, double lo, double hi, double t, double &val, double &tol)
{
    int c = (int)s.size() - 1;
    double mag = 0;
    if (c == 0 || t <= lo) { val = s[0]; tol = 4 * EPS * std::fabs(s[0]); if (c == 0 || t < lo - 4 * EPS * std::fabs(lo)) return; }
    else if (t >= hi) { val = s[c]; tol = 4 * EPS * std::fabs(s[c]); if (t > hi + 4 * EPS * std::fabs(hi)) return; }
    double u = std::min((double)c, std::max(0.0, (t - lo) / (hi - lo) * c));
    double du = 8 * EPS * c * (std::fabs(t) + std::fabs(lo) + std::fabs(hi)) / (hi - lo) + 8 * EPS * (u + 1);
    int i = std::min(c - 1, (int)u);
    val = s[i] + (u - i) * ((double)s[i + 1] - s[i]);
    double slope = 0;
    int a = std::max(0, (int)std::floor(u - du) - 1), b = std::min(c - 1, (int)std::ceil(u + du) + 1);
    for (int j = a; j <= b; j++) { slope = std::max(slope, std::fabs((double)s[j + 1] - s[j])); }
    for (int j = std::max(0, i - 1); j <= std::min(c, i + 2); j++) mag = std::max(mag, (double)std::fabs(s[j]));
    tol = slope * std::min(du, 1.0) + 8 * EPS * mag;
}
} // namespace
void run()
{
    Rng r = rng("c15");
    Mon &mf = mon("fetch interpolates linearly"), &mb = mon("fetch stays between its two samples"), &mc = mon("resampling to 380..779 nm"), &me = mon("outside the range: end samples"), &mi = mon("stored bins"), &mk = mon("sample points are reproduced"), &mm = mon("fetch of a spectrum");
    Cls c1("one sample", 100), c2("two samples", 200), cmany("more samples than bins", 200), c400("400 samples", 200), cin("inside the first interval", 1000), clast("inside the last interval", 1000), clow("below the range", 1000), chi("above the range", 1000), cknot("exactly on a sample", 1000), cnarrow("range inside 380..779", 200), cwide("range beyond 380..779", 200), chalf("half-integer wavelengths", 1000), cunit("ranges of any unit", 200), cfar("range that misses every bin", 200), cgrid("published grids", 200);
    long n = N(9000);
    for (long it = 0; it < n; it++)
    {
        int ns;
        switch (r.below(8))
        {
        case 7: ns = r.below(6) ? 2 + r.below(8) : r.below(4) ? 1000 + r.below(20000) : 20000 + r.below(120000); break;
        case 0: ns = 1; c1(); break;
        case 1: ns = 2; c2(); break;
        case 2: ns = 400; c400(); break;
        case 3: ns = 401 + r.below(600); cmany(); break;
        case 4: ns = r.pick<int>({3, 41, 81, 36, 401, 31}); break;
        default: ns = 2 + r.below(399);
        }
        float lo, hi;
        switch (r.below(8))
        {
        case 7:
            cunit(); // other units
            switch (r.below(6))
            {
            case 0: { float w = r.below(2) ? (float)(1 + r.below(1000)) : r.logf_(1e-9, 1e6); lo = r.below(3) ? 0 : r.below(2) ? -w : -w / 2; hi = lo + w; break; } // an end, or the middle, at zero
            case 1: { float u = r.pick<float>({1e-9f, 1e-7f, 1e-6f, 1e-3f, 10.f}); lo = 380 * u; hi = r.below(2) ? 780 * u : 779 * u; break; } // metres, centimetres, millimetres, micrometres, angstroms
            default: lo = r.sgn() * r.logf_(1e-3, 1e4); hi = lo + r.logf_(std::max(1e-2, std::fabs(lo) * 1e-2), 1e4);
            }
            break;
        case 5: lo = r.f(10, 300); hi = lo + r.f(1, 79); cfar(); break; // wholly below or above the bins
        case 6: lo = r.f(780, 5000); hi = lo + r.f(1, 5000); cfar(); break;
        case 0: lo = 380; hi = 779; break;
        case 1: lo = 400; hi = 700; cnarrow(); break;
        case 2: lo = r.f(200, 380); hi = r.f(779, 1200); cwide(); break;
        case 3: lo = r.f(380, 600); hi = lo + r.f(10, 400); cnarrow(); break;
        default: lo = (float)(300 + r.below(200)); hi = lo + 5.f * (ns > 1 ? ns - 1 : 1);
        }
        if (r.below(6) == 0) // the grids spectra are published on
        {
            const float step = r.pick<float>({1.f, 2.f, 4.f, 5.f, 10.f, 20.f});
            lo = r.pick<float>({300.f, 350.f, 360.f, 380.f, 390.f, 400.f, 410.f}); hi = r.pick<float>({680.f, 700.f, 720.f, 730.f, 740.f, 750.f, 760.f, 770.f, 780.f, 800.f, 830.f});
            if (r.below(3) == 0) lo = 380, hi = 780;
            ns = (int)((hi - lo) / step) + 1;
            if (r.below(2)) hi = lo + (ns - 1) * step;
            cgrid();
        }
        std::vector<float> s(ns);
        int sk = r.below(6);
        float amp = sk == 4 ? r.logf_(1e-12, 1e12) : 1.f;
        for (int i = 0; i < ns; i++) s[i] = sk == 0 ? r.f(0, 1) : (sk == 1 ? (float)i : (sk == 2 ? (float)std::sin(i * 0.05) : (sk == 4 ? amp * r.f(-1, 1) : (sk == 5 ? (float)(ns - i) * 0.25f : (r.below(8) ? 0.f : r.f(-1, 100))))));
        // exactly sized heap copy so that the address sanitizer sees any read past it
        std::unique_ptr<float[]> heap(new float[ns]);
        memcpy(heap.get(), s.data(), ns * 4);
        cur("resample", {(double)ns, lo, hi, s[0], s[ns - 1], (double)it});
        const Spectrum S(heap.get(), ns, lo, hi);
        for (int i = 0; i < 400; i++)
        {
            double v, tol;
            ref(s, lo, hi, 380.0 + i, v, tol);
            near(mc, S[i], D(v, 0), "bin", 0, tol);
            same(mi, S.s()[i], S[i], "s()");
        }
        // static fetch
        for (int j = 0; j < 60; j++)
        {
            float t;
            int k = ns > 1 ? r.below(ns) : 0;
            double step = ns > 1 ? ((double)hi - lo) / (ns - 1) : hi - lo;
            switch (r.below(8))
            {
            case 0: t = (float)(lo + step * k); cknot(); break;
            case 1: t = (float)(lo + step * r.d()); cin(); break;
            case 2: t = (float)(hi - step * r.d()); clast(); break;
            case 3: t = lo - r.logf_(1e-4, 1e6); clow(); break;
            case 4: t = hi + r.logf_(1e-4, 1e6); chi(); break;
            case 5: t = (float)(lo + step * (k + 0.5)); chalf(); break;
            case 6: t = r.below(2) ? ulps(lo, (int)r.below(7) - 3) : ulps(hi, (int)r.below(7) - 3); break;
            default: t = r.f(lo, hi);
            }
            if (r.below(20) == 0) t = r.pick<float>({0.f, 1.f, -1.f, 380.f, 779.f, 555.f, 400.f, 700.f});
            cur("fetch", {(double)ns, lo, hi, t, s[0], s[ns - 1]});
            double v, tol;
            ref(s, lo, hi, t, v, tol);
            float g = Spectrum::fetch(heap.get(), ns, lo, hi, t);
            near(t < lo || t > hi ? me : mf, g, D(v, 0), "fetch", 0, tol);
            if (ns > 1 && t > lo && t < hi)
            {
                double u = ((double)t - lo) / ((double)hi - lo) * (ns - 1), du = 8 * EPS * ns * (std::fabs(lo) + 2 * std::fabs(hi)) / (hi - lo) + 1e-6;
                int a = std::max(0, (int)std::floor(u - du)), b = std::min(ns - 1, (int)std::ceil(u + du));
                double mn = INFINITY, mx = -INFINITY, mg = 0;
                for (int q = a; q <= b; q++) { mn = std::min(mn, (double)s[q]); mx = std::max(mx, (double)s[q]); mg = std::max(mg, (double)std::fabs(s[q])); }
                check(mb, g >= mn - tol - 4 * EPS * mg && g <= mx + tol + 4 * EPS * mg, "interpolated value outside its samples");
            }
        }
        // infinities fetch the ends
        same(me, Spectrum::fetch(heap.get(), ns, lo, hi, INFINITY), s[ns - 1], "+inf"); same(me, Spectrum::fetch(heap.get(), ns, lo, hi, -INFINITY), s[0], "-inf");
        // a full spectrum
        std::array<float, 400> arr;
        for (int i = 0; i < 400; i++) arr[i] = sk == 1 ? (float)(i * i) : r.f(-1, 2);
        const Spectrum F(arr), Zs;
        std::unique_ptr<float[]> h4(new float[400]);
        memcpy(h4.get(), arr.data(), 1600);
        const Spectrum Fd(h4.get());
        std::vector<float> av(arr.begin(), arr.end());
        cur("spectrum", {arr[0], arr[1], arr[399], (double)sk});
        for (int i = 0; i < 400; i++)
        {
            same(mi, F[i], arr[i], "bin"); same(mi, Zs[i], 0, "default spectrum is zero");
            double v, tol;
            ref(av, 380, 779, 380 + i, v, tol);
            near(mk, Fd[i], D(arr[i], 0), "default resampling keeps the bins", 0, tol + 1e-30);
            near(mk, F.fetch(380.f + i), D(arr[i], 0), "fetch at a bin", 0, tol + 1e-30);
        }
        for (int j = 0; j < 60; j++)
        {
            float t = j == 0 ? 380.f : (j == 1 ? 779.f : (j < 10 ? 380.f + r.below(399) + 0.5f : (j < 16 ? r.f(380, 381.5) : (j < 22 ? r.f(777.5, 779) : (j < 26 ? r.f(0, 380) : (j < 30 ? r.f(779, 3000) : r.f(380, 779)))))));
            cur("spectrum fetch", {t, arr[0], arr[399]});
            double v, tol;
            ref(av, 380, 779, t, v, tol);
            near(mm, F.fetch(t), D(v, 0), "fetch", 0, tol);
        }
        for (int j = 0; j < 10; j++)
        {
            float a = r.f(-10, 10), b = r.f(-10, 10), q = inrange(r, 0, 1);
            cur("lerp", {a, b, q});
            near(mf, Spectrum::lerp(a, b, q), D::in(a) * (D(1, 0) - D::in(q)) + D::in(b) * D::in(q), "lerp");
        }
    }
}
