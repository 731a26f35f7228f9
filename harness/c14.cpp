// C14: colour differences
#include "okref.hpp"
using namespace H;
namespace
{
// CIEDE2000 after Sharma, Wu, Dalal (2005)
double e00(const float *p, const float *q, double kl, double kc, double kh, double *dhue, double *chroma)
{
    double L1 = p[0], a1 = p[1], b1 = p[2], L2 = q[0], a2 = q[1], b2 = q[2];
    double C1 = std::hypot(a1, b1), C2 = std::hypot(a2, b2), Cb = (C1 + C2) / 2, C7 = std::pow(Cb, 7), P = std::pow(25.0, 7);
    double G = 0.5 * (1 - std::sqrt(C7 / (C7 + P)));
    double A1 = (1 + G) * a1, A2 = (1 + G) * a2, D1 = std::hypot(A1, b1), D2 = std::hypot(A2, b2);
    auto deg = [](double y, double x) { if (x == 0 && y == 0) return 0.0; double h = std::atan2(y, x) * 180 / M_PI; return h < 0 ? h + 360 : h; };
    double h1 = deg(b1, A1), h2 = deg(b2, A2), dh;
    if (D1 * D2 == 0) dh = 0;
    else if (std::fabs(h2 - h1) <= 180) dh = h2 - h1;
    else dh = h2 - h1 > 180 ? h2 - h1 - 360 : h2 - h1 + 360;
    *dhue = std::fabs(h2 - h1);
    *chroma = std::min(D1, D2);
    double dL = L2 - L1, dC = D2 - D1, dH = 2 * std::sqrt(D1 * D2) * std::sin(dh / 2 * M_PI / 180);
    double Lb = (L1 + L2) / 2, Db = (D1 + D2) / 2, hb;
    if (D1 * D2 == 0) hb = h1 + h2;
    else if (std::fabs(h1 - h2) <= 180) hb = (h1 + h2) / 2;
    else hb = h1 + h2 < 360 ? (h1 + h2 + 360) / 2 : (h1 + h2 - 360) / 2;
    auto c = [](double d) { return std::cos(d * M_PI / 180); };
    double T = 1 - 0.17 * c(hb - 30) + 0.24 * c(2 * hb) + 0.32 * c(3 * hb + 6) - 0.20 * c(4 * hb - 63);
    double th = 30 * std::exp(-std::pow((hb - 275) / 25, 2)), Rc = 2 * std::sqrt(std::pow(Db, 7) / (std::pow(Db, 7) + P));
    double Sl = 1 + 0.015 * (Lb - 50) * (Lb - 50) / std::sqrt(20 + (Lb - 50) * (Lb - 50)), Sc = 1 + 0.045 * Db, Sh = 1 + 0.015 * Db * T, Rt = -std::sin(2 * th * M_PI / 180) * Rc;
    double x = dL / (kl * Sl), y = dC / (kc * Sc), z = dH / (kh * Sh);
    return std::sqrt(x * x + y * y + z * z + Rt * y * z);
}
} // namespace
void run()
{
    Rng r = rng("c14");
    Mon &m76 = mon("E76 is the Euclidean distance"), &muv = mon("UV is the chromaticity distance"), &m00 = mon("E00 is CIEDE2000"), &mict = mon("ICtCp distance"), &msym = mon("symmetric"), &mzero = mon("zero for equal colours"), &mpos = mon("positive and finite"), &mtri = mon("triangle inequality"), &mpub = mon("Sharma's published pairs"), &mk = mon("E00 weights");
    Cls cw("hues across 0/360", 1000), cblue("blue region (hue 230..320)", 1000), cgrey("achromatic operand", 1000), csame("equal colours", 1000), cclose("nearly equal colours", 2000), copp("nearly opposite hues", 200), cfar("far apart", 1000), ck("non-unit weights", 2000), chi("high chroma", 1000), cwx("XYZ pairs of any signs and sizes", 1000);
    static const float S[][7] = { // L1 a1 b1 L2 a2 b2 dE00
        {50, 2.6772f, -79.7751f, 50, 0, -82.7485f, 2.0425f}, {50, 3.1571f, -77.2803f, 50, 0, -82.7485f, 2.8615f}, {50, 2.8361f, -74.0200f, 50, 0, -82.7485f, 3.4412f},
        {50, -1.3802f, -84.2814f, 50, 0, -82.7485f, 1.0000f}, {50, -1.1848f, -84.8006f, 50, 0, -82.7485f, 1.0000f}, {50, -0.9009f, -85.5211f, 50, 0, -82.7485f, 1.0000f},
        {50, 0, 0, 50, -1, 2, 2.3669f}, {50, -1, 2, 50, 0, 0, 2.3669f}, {50, 2.5f, 0, 50, 0, -2.5f, 4.3065f}, {50, 2.5f, 0, 73, 25, -18, 27.1492f}, {50, 2.5f, 0, 61, -5, 29, 22.8977f},
        {50, 2.5f, 0, 56, -27, -3, 31.9030f}, {50, 2.5f, 0, 58, 24, 15, 19.4535f}, {50, 2.5f, 0, 50, 3.1736f, 0.5854f, 1.0000f}, {50, 2.5f, 0, 50, 3.2972f, 0, 1.0000f}, {50, 2.5f, 0, 50, 1.8634f, 0.5757f, 1.0000f},
        {50, 2.5f, 0, 50, 3.2592f, 0.3350f, 1.0000f}, {60.2574f, -34.0099f, 36.2677f, 60.4626f, -34.1751f, 39.4387f, 1.2644f}, {63.0109f, -31.0961f, -5.8663f, 62.8187f, -29.7946f, -4.0864f, 1.2630f},
        {61.2901f, 3.7196f, -5.3901f, 61.4292f, 2.2480f, -4.9620f, 1.8731f}, {35.0831f, -44.1164f, 3.7933f, 35.0232f, -40.0716f, 1.5901f, 1.8645f}, {22.7233f, 20.0904f, -46.6940f, 23.0331f, 14.9730f, -42.5619f, 2.0373f},
        {36.4612f, 47.8580f, 18.3852f, 36.2715f, 50.5065f, 21.2231f, 1.4146f}, {90.8027f, -2.0831f, 1.4410f, 91.1528f, -1.6435f, 0.0447f, 1.4441f}, {90.9257f, -0.5406f, -0.9208f, 88.6381f, -0.8985f, -0.7239f, 1.5381f},
        {6.7747f, -0.2908f, -2.4247f, 5.8714f, -0.0985f, -2.2286f, 0.6377f}, {2.0776f, 0.0795f, -1.1350f, 0.9033f, -0.0636f, -0.5514f, 0.9082f}};
    for (auto &s : S)
    {
        cur("Sharma pair", {s[0], s[1], s[2], s[3], s[4], s[5]});
        near(mpub, CS::Delta::E00(Tristimulus(s[0], s[1], s[2]), Tristimulus(s[3], s[4], s[5])), D(s[6], 0), "published", 0, 2e-4);
    }
    long n = N(400000);
    auto gen = [&](float *p) {
        p[0] = inrange(r, 0, 100, {50.f, 0.f, 100.f});
        double h = r.below(4) == 0 ? r.d(230, 320) : (r.below(4) == 0 ? r.d(-20, 20) : r.d(0, 360)), c = r.below(4) == 0 ? r.logf_(0.01, 10) : (r.below(8) == 0 ? r.d(100, 200) : r.d(0, 120));
        p[1] = (float)(c * std::cos(h * M_PI / 180)); p[2] = (float)(c * std::sin(h * M_PI / 180));
        if (r.below(12) == 0) p[1] = p[2] = 0;
        if (r.below(20) == 0) p[1 + r.below(2)] = 0;
    };
    for (long it = 0; it < n; it++)
    {
        float a[3], b[3], c[3];
        gen(a); gen(b); gen(c);
        int k = r.below(6);
        if (k == 0) { double s = r.logf_(1e-4, 3); for (int i = 0; i < 3; i++) b[i] = (float)(a[i] + s * r.d(-1, 1)); cclose(); }
        if (k == 1 && r.below(3) == 0) { memcpy(b, a, 12); csame(); }
        if (k == 2 && r.below(6) == 0) { double s = r.d(0.3, 2); b[1] = (float)(-a[1] * s); b[2] = (float)(-a[2] * s); copp(); }
        float kl = 1, kc = 1, kh = 1;
        if (r.below(3) == 0) { kl = r.f(0.3, 3); kc = r.f(0.3, 3); kh = r.f(0.3, 3); ck(); if (r.below(4) == 0) { kl = r.logf_(0.1, 10); kc = r.logf_(0.1, 10); kh = r.logf_(0.1, 10); } else if (r.below(6) == 0) { kl = r.logf_(1e-2, 1e4); kc = r.logf_(1e-2, 1e4); kh = r.logf_(1e-2, 1e4); if (r.below(3) == 0) kl = kc = kh; } if (r.below(3) == 0) (r.below(3) == 0 ? kl : r.below(2) ? kc : kh) = r.pick<float>({1.f, 2.f}); }
        cur("Lab pair", {a[0], a[1], a[2], b[0], b[1], b[2], kl, kc, kh});
        const Tristimulus A(a[0], a[1], a[2]), B(b[0], b[1], b[2]), C(c[0], c[1], c[2]);
        bool eq = !memcmp(a, b, 12);
        D x = D::in(a[0]) - D::in(b[0]), y = D::in(a[1]) - D::in(b[1]), z = D::in(a[2]) - D::in(b[2]);
        const float d76 = CS::Delta::E76(A, B), duv = CS::Delta::UV(A, B), d00 = CS::Delta::E00(A, B, kl, kc, kh);
        // differences of floats are exact up to one rounding
        x.e = 2 * std::fabs(x.v); y.e = 2 * std::fabs(y.v); z.e = 2 * std::fabs(z.v);
        near(m76, d76, dsqrt(x * x + y * y + z * z), "E76"); near(muv, duv, dsqrt(y * y + z * z), "UV");
        check(mpos, d76 >= 0 && duv >= 0 && d00 >= 0 && std::isfinite(d76) && std::isfinite(duv) && std::isfinite(d00), "negative or not finite");
        if (eq) { same(mzero, d76, 0, "E76"); same(mzero, duv, 0, "UV"); same(mzero, d00, 0, "E00"); }
        else
        {
            check(mpos, d76 > 0 || std::fabs(x.v) + std::fabs(y.v) + std::fabs(z.v) < 1e-18, "E76 of different colours is zero");
            check(mpos, d00 > 0 || dsqrt(x * x + y * y + z * z).v < 1e-3, "E00 of different colours is zero");
        }
        near(msym, CS::Delta::E76(B, A), D(d76, d76), "E76"); near(msym, CS::Delta::UV(B, A), D(duv, duv), "UV");
        near(mtri, std::max(0.0, (double)d76 - CS::Delta::E76(A, C) - CS::Delta::E76(C, B)), D(0, 300), "E76"); near(mtri, std::max(0.0, (double)duv - CS::Delta::UV(A, C) - CS::Delta::UV(C, B)), D(0, 300), "UV");
        double dh, ch, e = e00(a, b, kl, kc, kh, &dh, &ch);
        // hue angles carry about 4e-5 degree; lightness and chroma a few ulps
        const double kmin = std::min({kl, kc, kh});
        double tol = 3e-5 * e + (kmin < 1 ? 3e-4 + 2e-4 / kmin : 3e-4 / kmin);
        double amb = 0.01 + (ch > 0 ? 4 * EPS * 100 / ch * 57 : 0); // where |h1-h2| cannot be told from 180
        if (std::fabs(dh - 180) > amb || eq)
        {
            Mon &mm = kl == 1 && kc == 1 && kh == 1 ? m00 : mk;
            near(mm, d00, D(e, 0), "E00", 0, tol);
            near(msym, CS::Delta::E00(B, A, kl, kc, kh), D(d00, 0), "E00", 0, tol);
            if (kl == 1 && kc == 1 && kh == 1) same(mk, CS::Delta::E00(A, B), d00, "default weights are one");
        }
        if (dh > 180) cw();
        if (std::hypot(a[1], a[2]) == 0 || std::hypot(b[1], b[2]) == 0) cgrey();
        if (b[2] < 0 && std::fabs(b[1]) < -b[2] && a[2] < 0 && std::fabs(a[1]) < -a[2]) cblue();
        if (d76 > 60) cfar();
        if (std::hypot(a[1], a[2]) > 80) chi();
        // ICtCp on XYZ
        float p[3], q[3];
        double s = r.logf_(1e-3, 60);
        for (int i = 0; i < 3; i++) { p[i] = (float)(s * r.d(0.3, 1.2)); q[i] = k == 0 ? (float)(p[i] * r.d(0.97, 1.03)) : (float)(s * r.d(0.3, 1.2)); }
        switch (r.below(8)) // dark, out-of-gamut, clipped, sharing coordinates
        {
        case 0: for (int i = 0; i < 3; i++) { p[i] = r.sgn() * r.logf_(1e-4, 1e3); q[i] = r.sgn() * r.logf_(1e-4, 1e3); } cwx(); break;
        case 1: for (int i = 0; i < 3; i++) { p[i] = r.below(2) ? 0.f : r.logf_(1e-3, 10); q[i] = r.below(2) ? 0.f : r.logf_(1e-3, 10); } cwx(); break;
        case 2: for (int i = 0; i < 3; i++) { p[i] = r.logf_(10, 1e4); q[i] = r.logf_(1e-5, 1e-1); } cwx(); break;
        case 3: for (int i = 0; i < 3; i++) if (r.below(2)) q[i] = p[i]; break;
        default: break;
        }
        if (eq) memcpy(q, p, 12);
        cur("XYZ pair", {p[0], p[1], p[2], q[0], q[1], q[2]});
        const Tristimulus P(p[0], p[1], p[2]), Q(q[0], q[1], q[2]);
        DV u = ictcp(dv(D::in(p[0]), D::in(p[1]), D::in(p[2]))), w = ictcp(dv(D::in(q[0]), D::in(q[1]), D::in(q[2])));
        D dI = u.a[0] - w.a[0], dT = u.a[1] - w.a[1], dP = u.a[2] - w.a[2];
        const float di = CS::Delta::ICtCp(P, Q);
        // |distance error| <= norm of the component errors
        double ee = K0 * EPS * std::sqrt(dI.e * dI.e + 0.25 * dT.e * dT.e + dP.e * dP.e);
        near(mict, di, D(std::sqrt(dI.v * dI.v + 0.25 * dT.v * dT.v + dP.v * dP.v), 0), "Delta ICtCp", 0, ee);
        near(msym, CS::Delta::ICtCp(Q, P), D(di, di), "ICtCp");
        if (eq) same(mzero, di, 0, "ICtCp");
        check(mpos, di >= 0 && std::isfinite(di), "ICtCp negative or not finite");
    }
}
