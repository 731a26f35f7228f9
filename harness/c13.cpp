// C13: HSV
#include "common.hpp"
using namespace H;
namespace
{
double mod(double h) { double m = std::fmod(h, 360.0); return m < 0 ? m + 360 : m; }
bool hue(Mon &m, double got, double want, double tol, const char *w)
{
    m.checks++;
    double d = std::fabs(got - want);
    d = std::min(d, std::fabs(360 - d));
    if (d <= tol && got >= 0 && got <= 360) return true;
    fail(m, fmt("%s: got hue %.9g, expected %.9g +- %.3g", w, got, want, tol));
    return false;
}
void ref(const float *c, double *o)
{
    double mx = std::max({c[0], c[1], c[2]}), mn = std::min({c[0], c[1], c[2]}), d = mx - mn;
    o[2] = mx;
    o[1] = mx == 0 ? 0 : d / mx;
    if (d == 0) o[0] = 0;
    else if (mx == c[0]) o[0] = mod(60 * ((double)c[1] - c[2]) / d);
    else if (mx == c[1]) o[0] = 60 * ((double)c[2] - c[0]) / d + 120;
    else o[0] = 60 * ((double)c[0] - c[1]) / d + 240;
}
void unref(double h, double s, double v, double *o)
{
    // the usual continuous form: v - v s max(0, min(k, 4-k, 1))
    auto fn = [&](double n) { double k = std::fmod(n + mod(h) / 60, 6.0); return v - v * s * std::max(0.0, std::min({k, 4 - k, 1.0})); };
    o[0] = fn(5); o[1] = fn(3); o[2] = fn(1);
}
} // namespace
void run()
{
    Rng r = rng("c13");
    Mon &mt = mon("RGB to HSV"), &mf = mon("HSV to RGB"), &mrt = mon("RGB round trip"), &mrh = mon("HSV round trip"), &mper = mon("hue is periodic in 360"), &mrng = mon("hue in 0..360, saturation in 0..1"), &mgrey = mon("greys"), &mat = mon("arctangent form"), &mmod = mon("hue reduction");
    Cls s0("sector 0", 1000), s1("sector 1", 1000), s2("sector 2", 1000), s3("sector 3", 1000), s4("sector 4", 1000), s5("sector 5", 1000), cb("sector boundary hue", 1000), cneg("negative hue", 1000), cbig("hue beyond one turn", 1000), chuge("hue beyond 2^24 degrees", 500), cg("grey", 1000), ctie("two equal channels", 1000), chdr("value above 1", 500), cout("negative channel", 500), cblk("black", 50), codd("saturation above 1 or value not positive", 500);
    Cls *sec[6] = {&s0, &s1, &s2, &s3, &s4, &s5};
    long n = N(700000);
    for (long it = 0; it < n; it++)
    {
        float c[3];
        int k = r.below(12);
        double sc = k == 1 ? r.logf_(1e-9, 1e-2) : (k == 2 ? r.logf_(1, 1e9) : 1);
        for (auto &z : c) z = (float)(sc * r.d());
        if (k == 2) chdr();
        if (k == 3) { c[1] = c[2] = c[0]; cg(); if (r.below(10) == 0) { c[0] = c[1] = c[2] = 0; cblk(); } }
        if (k == 4) { int i = r.below(3); c[(i + 1) % 3] = c[i]; ctie(); }
        if (k == 5) for (auto &z : c) z = (float)r.below(2);
        if (k == 6) { c[r.below(3)] = -r.f(0, 0.5); int i = r.below(3); c[i] = std::fabs(c[i]) + 0.01f; cout(); }
        if (k == 7) for (auto &z : c) z = (float)r.below(256) / 255.f;
        if (k == 10) { float g = r.f(0.01, 1); for (auto &z : c) z = ulps(g, (int)r.below(9) - 4); }
        if (k == 11) for (auto &z : c) z = r.below(3) ? r.logf_(1e-4, 1) : 0.f;
        double mx = std::max({c[0], c[1], c[2]}), mn = std::min({c[0], c[1], c[2]});
        cur("RGB", {c[0], c[1], c[2]});
        if (mx > 0 || (mx == 0 && mn == 0))
        {
            double o[3];
            ref(c, o);
            if (mx > mn) (*sec[std::min(5, (int)(o[0] / 60))])();
            const Tristimulus C(c[0], c[1], c[2]);
            double d = mx - mn, ht = d > 0 ? 60 * 8 * EPS + 360 * 3 * EPS : 0;
            double mag = std::max(std::fabs(mx), std::fabs(mn));
            double st = mx > 0 ? 4 * EPS * (1 + mag / mx) + 4 * EPS * o[1] : 0;
            for (const Tristimulus &hsv : {C.toHSV(), Tristimulus::toHSV(C)})
            {
                hue(mx == mn ? mgrey : mt, hsv[0], o[0], ht + (d > 0 ? 60 * 4 * EPS * mag / d * 0 : 0), "toHSV");
                near(mt, hsv[1], D(o[1], 0), "saturation", K0, st);
                same(mt, hsv[2], (float)mx, "value is the largest channel");
                if (mn >= 0) check(mrng, hsv[1] >= 0 && hsv[1] <= 1.0000001f && hsv[0] >= 0 && hsv[0] <= 360, "range");
            }
            const Tristimulus back = C.toHSV().fromHSV();
            for (int i = 0; i < 3; i++) near(mrt, back[i], D(c[i], 0), "RGB -> HSV -> RGB", K0, 8 * EPS * (mx + mag) + (8 * EPS) * d * 6);
            // arctangent form
            double y = std::sqrt(3.0) * ((double)c[1] - c[2]), x = 2.0 * c[0] - c[1] - c[2], q = std::hypot(x, y);
            for (const Tristimulus &hsv : {C.toHSV_atan(), Tristimulus::toHSV_atan(C)})
            {
                if (q > 0)
                {
                    double err = 6 * EPS * (std::fabs(c[0]) * 2 + std::fabs(c[1]) + std::fabs(c[2])) / q;
                    if (err < 0.5) hue(mat, hsv[0], mod(std::atan2(y, x) * 180 / M_PI), err * 180 / M_PI * 1.5 + 360 * 6 * EPS, "toHSV_atan");
                }
                else hue(mgrey, hsv[0], 0, 1e-4, "toHSV_atan of a grey");
                near(mat, hsv[1], D(o[1], 0), "saturation", K0, st);
                same(mat, hsv[2], (float)mx, "value");
            }
        }
        // HSV to RGB
        float h, s = inrange(r, 0, 1), v = r.below(3) ? r.f(0, 1) : r.logf_(1e-4, 100);
        bool odd = r.below(8) == 0; // saturation above one and values of either sign follow the same formula
        if (odd) { s = r.below(2) ? r.f(0, 3) : inrange(r, 0, 1); v = r.below(4) ? r.sgn() * r.logf_(1e-6, 1e6) : r.pick<float>({0.f, 1.f, -1.f}); codd(); }
        switch (r.below(8))
        {
        case 0: h = 60.f * (int)(r.below(19) - 6); h = r.below(2) ? h : ulps(h, (int)r.below(5) - 2); cb(); break;
        case 1: h = -r.logf_(1e-9, 720); break;
        case 2: h = r.f(360, 7200); break;
        case 3: h = r.sgn() * r.logf_(1e4, 1e37); break;
        case 4: h = anyfinite(r); break;
        default: h = r.f(0, 360);
        }
        if (h < 0) cneg();
        if (std::fabs(h) > 360) cbig();
        if (std::fabs(h) > 16777216.f) chuge();
        cur("HSV", {h, s, v});
        double o[3];
        unref(h, s, v, o);
        const Tristimulus Hs(h, s, v);
        double tol = std::fabs(v) * (8 * EPS * s + 8 * EPS + s * (360 * 2 * EPS / 60 + 8 * EPS));
        for (const Tristimulus &t : {Hs.fromHSV(), Tristimulus::fromHSV(Hs)})
            for (int i = 0; i < 3; i++) near(mf, t[i], D(o[i], 0), "fromHSV", K0, tol);
        const double m = mod(h);
        hue(mmod, Tristimulus::mod360(h), m, 360 * EPS, "mod360");
        if (h >= 0 && h < 360) same(mmod, Tristimulus::mod360(h), h, "mod360 keeps a reduced hue");
        if (std::fabs(h) < 1e5)
        {
            float turn = 360.f * (int)(r.below(9) - 4);
            float h2 = h + turn;
            if ((double)h2 == (double)h + turn)
            {
                const Tristimulus a = Hs.fromHSV(), b = Tristimulus(h2, s, v).fromHSV();
                for (int i = 0; i < 3; i++) near(mper, b[i], D(a[i], 0), "a full turn changes nothing", K0, 2 * tol);
            }
        }
        if (s > 0.01 && s <= 1 && v > 0 && std::fabs(h) < 1e6)
        {
            const Tristimulus bk = Hs.fromHSV().toHSV();
            hue(mrh, bk[0], m, 60 * (16 * EPS) / s + 360 * 4 * EPS, "HSV -> RGB -> HSV");
            near(mrh, bk[1], D(s, 0), "saturation", K0, 16 * EPS); near(mrh, bk[2], D(v, 0), "value", K0, 4 * EPS * v);
        }
    }
}
