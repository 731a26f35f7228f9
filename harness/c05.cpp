// C05: Bradford chromatic adaptation
#include "common.hpp"
using namespace H;
void run()
{
    Rng r = rng("c05");
    Mon &md = mon("Bradford matrix"), &mw = mon("source white maps to destination white"), &mi = mon("equal whites give the identity"),
        &mr = mon("the reverse adaptation undoes it"), &mc = mon("adaptations compose"), &ms = mon("scaling both whites changes nothing");
    Cls cn("named illuminants", 500), cs("unequal luminance", 500), ce("equal whites", 200), cp("chromatic whites", 500), cany("any components", 500), cnear("nearly equal whites", 500);
    const double B[9] = {0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296};
    DM L;
    for (int i = 0; i < 9; i++) L.a[i] = D(B[i]);
    DM Li = dinv(L);
    const Tristimulus *ill[] = {&CS::Illuminant_A, &CS::Illuminant_B, &CS::Illuminant_C, &CS::Illuminant_D50, &CS::Illuminant_D55, &CS::Illuminant_D60,
        &CS::Illuminant_D65, &CS::Illuminant_D75, &CS::Illuminant_E, &CS::Illuminant_F2, &CS::Illuminant_F7, &CS::Illuminant_F11};
    auto gen = [&](float *w) {
        for (;;)
        {
            int k = r.below(5);
            if (k == 4) { for (int i = 0; i < 3; i++) w[i] = r.f(0.02, 2); if (r.below(2)) w[r.below(3)] = r.pick<float>({0.f, 1.f}); if (r.below(4) == 0) w[2] = w[1] = w[0]; cany(); }
            else if (k == 0) { const Tristimulus &t = *ill[r.below(12)]; for (int i = 0; i < 3; i++) w[i] = t[i]; cn(); }
            else
            {
                double x = k == 1 ? r.d(0.25, 0.5) : r.d(0.12, 0.65), y = k == 1 ? r.d(0.25, 0.45) : r.d(0.12, 0.7);
                if (x + y > 0.97) continue;
                double Y = r.below(2) ? 1 : r.logf_(1e-4, 1e4);
                w[0] = (float)(x / y * Y); w[1] = (float)Y; w[2] = (float)((1 - x - y) / y * Y);
                if (k > 1) cp();
            }
            bool ok = true;
            for (int i = 0; i < 3; i++) if (B[i * 3] * w[0] + B[i * 3 + 1] * w[1] + B[i * 3 + 2] * w[2] < 0.01 * (std::fabs(w[0]) + w[1] + std::fabs(w[2]))) ok = false;
            if (ok) return;
        }
    };
    auto refm = [&](const float *s, const float *d) {
        DV a = dapply(L, dv(D::in(s[0]), D::in(s[1]), D::in(s[2]))), b = dapply(L, dv(D::in(d[0]), D::in(d[1]), D::in(d[2])));
        DM g;
        for (auto &x : g.a) x = D(0, 0);
        for (int i = 0; i < 3; i++) g.a[i * 4] = b.a[i] / a.a[i];
        return dmul(dmul(Li, g), L);
    };
    long n = N(400000);
    for (long it = 0; it < n; it++)
    {
        float s[3], d[3], e[3], c[3];
        gen(s); gen(d); gen(e);
        if (r.below(12) == 0) { memcpy(d, s, 12); ce(); }
        else if (r.below(12) == 0) // nearly equal whites, or whites that share components
        {
            float t[3];
            for (int i = 0; i < 3; i++) t[i] = r.below(2) ? s[i] : s[i] * (1 + r.sgn() * r.logf_(1e-6, 0.02));
            bool ok = true;
            for (int i = 0; i < 3; i++) if (B[i * 3] * t[0] + B[i * 3 + 1] * t[1] + B[i * 3 + 2] * t[2] < 0.01 * (t[0] + t[1] + t[2])) ok = false;
            if (ok) { memcpy(d, t, 12); cnear(); }
        }
        for (auto &x : c) x = r.below(4) ? r.f(0, 2) : r.sgn() * r.logf_(1e-6, 1e4);
        cur("Bradford", {s[0], s[1], s[2], d[0], d[1], d[2], e[0], e[1], e[2], c[0], c[1], c[2]});
        if (std::fabs(s[1] - d[1]) > 0.01) cs();
        const Tristimulus S(s[0], s[1], s[2]), Dt(d[0], d[1], d[2]), E(e[0], e[1], e[2]), C(c[0], c[1], c[2]);
        const Matrix3 M = CS::Bradford(S, Dt);
        DM m = refm(s, d);
        for (int i = 0; i < 9; i++) near(md, M[i], m.a[i], "Bradford");
        DV w = dapply(m, dv(D::in(s[0]), D::in(s[1]), D::in(s[2])));
        const Tristimulus got = S.apply(M);
        for (int i = 0; i < 3; i++) near(mw, got[i], D(d[i], w.a[i].e), "adapted white");
        if (it % 4 == 0)
        {
            const Matrix3 I = CS::Bradford(S, S);
            DM id = refm(s, s);
            for (int i = 0; i < 9; i++) near(mi, I[i], D(i % 4 == 0, id.a[i].e), "identity");
            const Matrix3 R = CS::Bradford(Dt, S), RM = R.mul(M), N2 = CS::Bradford(Dt, E).mul(M), N1 = CS::Bradford(S, E);
            DM rm = dmul(refm(d, s), m), n2 = dmul(refm(d, e), m), n1 = refm(s, e);
            for (int i = 0; i < 9; i++)
            {
                near(mr, RM[i], D(i % 4 == 0, rm.a[i].e), "there and back");
                near(mc, N2[i], D(n1.a[i].v, n2.a[i].e), "two steps");
                near(mc, N1[i], n1.a[i], "one step");
            }
            const Matrix3 S2 = CS::Bradford(S * 4.f, Dt * 4.f);
            for (int i = 0; i < 9; i++) near(ms, S2[i], m.a[i], "both whites scaled");
        }
    }
}
