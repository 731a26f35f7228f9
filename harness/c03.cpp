// C03: XYZ <-> Yxy <-> Yuv
#include "common.hpp"
using namespace H;
namespace
{
void cmp(Mon &m, const Tristimulus &t, D a, D b, D c, const char *what)
{
    near(m, t[0], a, what); near(m, t[1], b, what); near(m, t[2], c, what);
}
} // namespace
void run()
{
    Rng r = rng("c03");
    Mon &mto = mon("XYZ to Yxy"), &mfrom = mon("Yxy to XYZ"), &muv = mon("xy and uv"), &mtu = mon("XYZ to Yuv"), &mfu = mon("Yuv to XYZ"),
        &mrt = mon("round trip Yxy"), &mru = mon("round trip Yuv"), &mbl = mon("black maps to the fallback chromaticity"), &mz = mon("y = 0 gives X = Z = 0"), &msc = mon("chromaticity ignores scale");
    Cls cuvn("imaginary Yuv", 1000), cblack("near-black", 1000), cedge("just above the near-black limit", 200), cdark("dark (sum < 1e-4)", 1000), cbright("bright (Y > 1000)", 1000),
        cneg("a negative coordinate", 500), cy0("y below the limit", 500), ctot("sum of either sign", 100), czero("one coordinate exactly zero", 1000);
    long n = N(700000);
    for (long it = 0; it < n; it++)
    {
        // --- XYZ side
        float X, Y, Z;
        int k = r.below(11);
        if (k == 10) { double s = r.logf_(1e6, 1e24); X = (float)(s * r.d()); Y = (float)(s * r.d()); Z = (float)(s * r.d()); }
        else if (k < 3) { X = r.f(0, 1.2); Y = r.f(0, 1.2); Z = r.f(0, 1.2); }
        else if (k < 5) { double s = r.logf_(1e-7, 1e6); X = (float)(s * r.d()); Y = (float)(s * r.d()); Z = (float)(s * r.d()); }
        else if (k == 5) { double s = r.logf_(1e-12, 1e-7); X = (float)(s * r.d()); Y = (float)(s * r.d()); Z = (float)(s * r.d()); }
        else if (k == 6) { X = r.sgn() * r.logf_(1e-5, 1e4); Y = r.sgn() * r.logf_(1e-5, 1e4); Z = r.sgn() * r.logf_(1e-5, 1e4); }
        else if (k == 7) { double s = 1e-8 * r.d(0.5, 1.5); X = (float)(s * 0.3); Y = (float)(s * 0.4); Z = (float)(s * 0.3); }
        else if (k == 8) { X = r.f(0, 1); Y = r.f(0, 1); Z = r.f(0, 1); float *p[3] = {&X, &Y, &Z}; *p[r.below(3)] = 0; if (r.below(3) == 0) *p[r.below(3)] = 0; czero(); }
        else { float g = r.logf_(1e-3, 1e3); X = Y = Z = g; if (r.below(2)) { X = 0.9505f * g; Z = 1.0890f * g; } }
        cur("XYZ", {X, Y, Z});
        const Tristimulus T(X, Y, Z);
        double sum = (double)X + Y + Z, mag = std::fabs((double)X) + std::fabs((double)Y) + std::fabs((double)Z);
        if (X < 0 || Y < 0 || Z < 0) cneg();
        if (sum < 0) ctot();
        if (Y > 1000) cbright();
        D dx, dy, DX = D::in(X), DY = D::in(Y), DZ = D::in(Z), S = DX + DY + DZ;
        double slack = 4 * EPS * mag;
        bool known = true;
        if (std::fabs(sum) + slack < 1e-8 * (1 - 1e-6)) { dx = D(0.3127, 0.3127); dy = D(0.3290, 0.3290); cblack(); }
        else if (std::fabs(sum) - slack > 1e-8 * (1 + 1e-6)) { dx = DX / S; dy = DY / S; if (std::fabs(sum) < 1e-4) cdark(); if (std::fabs(sum) < 2e-8) cedge(); }
        else known = false;
        if (known)
        {
            Mon &m = std::fabs(sum) < 1e-8 ? mbl : mto;
            cmp(m, T.toYxy(), DY, dx, dy, "toYxy"); cmp(m, Tristimulus::toYxy(T), DY, dx, dy, "toYxy (static)"); cmp(m, Tristimulus::toYxy(X, Y, Z), DY, dx, dy, "toYxy (three floats)");
            near(m, Tristimulus::x_from_XYZ(X, Y, Z), dx, "x_from_XYZ"); near(m, Tristimulus::y_from_XYZ(X, Y, Z), dy, "y_from_XYZ");
            same(m, Tristimulus::Y_from_XYZ(X, Y, Z), Y, "Y_from_XYZ");
            same(m, T.toYxy()[0], Y, "luminance is kept");
            D den = D(-2, 0) * dx + D(12, 0) * dy + D(3, 0);
            D u = D(4, 0) * dx / den, v = D(6, 0) * dy / den;
            cmp(mtu, T.toYuv(), DY, u, v, "toYuv"); cmp(mtu, Tristimulus::toYuv(T), DY, u, v, "toYuv (static)"); cmp(mtu, Tristimulus::toYuv(X, Y, Z), DY, u, v, "toYuv (three floats)");
            if (std::fabs(sum) > 1e-7)
            {
                // back to XYZ: the same D values, with exact values put back (errors carried)
                if (std::fabs(dy.v) > 1e-6)
                {
                    D zz = D(1, 0) - dx - dy;
                    D bx = dx * DY / dy, bz = zz * DY / dy;
                    cmp(mrt, T.toYxy().fromYxy(), bx, DY, bz, "XYZ -> Yxy -> XYZ");
                    D d2 = D(2, 0) * u - D(8, 0) * v + D(4, 0), x2 = D(3, 0) * u / d2, y2 = D(2, 0) * v / d2;
                    D z2 = D(1, 0) - x2 - y2;
                    cmp(mru, T.toYuv().fromYuv(), x2 * DY / y2, DY, z2 * DY / y2, "XYZ -> Yuv -> XYZ");
                }
                float kf = r.pick<float>({2.f, 0.5f, 4.f, 0.25f, 1024.f});
                const Tristimulus q = Tristimulus(X * kf, Y * kf, Z * kf).toYxy();
                near(msc, q[1], dx, "scaled x"); near(msc, q[2], dy, "scaled y");
            }
        }
        // --- Yxy side
        float Yl = k < 5 ? r.f(0, 2) : r.logf_(1e-6, 1e5), x, y;
        switch (r.below(8))
        {
        case 0: x = r.f(-0.2, 1); y = r.sgn() * r.logf_(1e-12, 1e-6); break;
        case 1: x = r.f(-0.2, 1); y = r.f(-0.2, 0); break;
        case 2: x = r.pick<float>({0.f, 1.f, 0.3127f, 0.34567f, 0.64f}); y = r.pick<float>({0.f, 1.f, 0.3290f, 0.3585f, 0.33f, 1e-8f}); break;
        case 3: y = r.f(0.001, 1); x = 1 - y; break;
        case 4: x = r.f(-3, 3); y = r.sgn() * r.f(0.01, 3); break;
        case 5: x = r.logf_(1e-9, 1); y = r.logf_(2e-8, 1); break;
        default: x = r.f(0, 0.8); y = r.f(0.005, 0.85); break;
        }
        if (r.below(16) == 0) Yl = r.pick<float>({0.f, 1.f, 100.f, -1.f});
        if (r.below(16) == 0) Yl = r.sgn() * r.logf_(1e-12, 1e20);
        cur("Yxy", {Yl, x, y});
        D dY = D::in(Yl), px = D::in(x), py = D::in(y), pz = D(1, 0) - px - py;
        near(mfrom, Tristimulus::z_from_xy(x, y), pz, "z_from_xy");
        const Tristimulus Q(Yl, x, y);
        const Tristimulus f1 = Q.fromYxy(), f2 = Tristimulus::fromYxy(Q), f3 = Tristimulus::fromYxy(Yl, x, y);
        if (std::fabs(y) < 0.999999e-8f)
        {
            cy0();
            for (auto *t : {&f1, &f2, &f3}) { same(mz, (*t)[0], 0, "X"); same(mz, (*t)[1], Yl, "Y"); same(mz, (*t)[2], 0, "Z"); }
            same(mz, Tristimulus::X_from_Yxy(Yl, x, y), 0, "X_from_Yxy"); same(mz, Tristimulus::Z_from_Yxy(Yl, x, y), 0, "Z_from_Yxy");
        }
        else if (std::fabs(y) > 1.000001e-8f)
        {
            D fx = px * dY / py, fz = pz * dY / py;
            cmp(mfrom, f1, fx, dY, fz, "fromYxy"); cmp(mfrom, f2, fx, dY, fz, "fromYxy (static)"); cmp(mfrom, f3, fx, dY, fz, "fromYxy (three floats)");
            near(mfrom, Tristimulus::X_from_Yxy(Yl, x, y), fx, "X_from_Yxy"); near(mfrom, Tristimulus::Z_from_Yxy(Yl, x, y), fz, "Z_from_Yxy");
            same(mfrom, Tristimulus::Y_from_Yxy(Yl, x, y), Yl, "Y_from_Yxy");
            // Yxy -> XYZ -> Yxy
            D s = fx + dY + fz;
            if (std::fabs(s.v) > 1e-7 && std::fabs(s.v) > 100 * EPS * s.e)
            {
                near(mrt, f1.toYxy()[0], dY, "Y"); near(mrt, f1.toYxy()[1], fx / s, "x"); near(mrt, f1.toYxy()[2], dY / s, "y");
            }
        }
        D den = D(-2, 0) * px + D(12, 0) * py + D(3, 0);
        if (den.v > 0.05)
        {
            D u = D(4, 0) * px / den, v = D(6, 0) * py / den;
            near(muv, Tristimulus::u_from_xy(x, y), u, "u_from_xy"); near(muv, Tristimulus::v_from_xy(x, y), v, "v_from_xy");
            const Tristimulus uv = Tristimulus::YxyToYuv(Q);
            cmp(muv, uv, dY, u, v, "YxyToYuv");
            D d2 = D(2, 0) * u - D(8, 0) * v + D(4, 0);
            if (d2.v > 0.05)
            {
                const Tristimulus bk = Tristimulus::YuvToYxy(uv);
                cmp(mru, bk, dY, D(3, 0) * u / d2, D(2, 0) * v / d2, "Yxy -> Yuv -> Yxy");
            }
        }
        // --- Yuv side
        float u = r.f(0.0, 0.62), v = r.below(10) == 0 ? r.logf_(1e-6, 1e-2) : r.f(0.01, 0.395);
        if (r.below(10) == 0) { u = r.f(-0.1, 0.7); v = r.f(0.01, 0.42); }
        if (r.below(10) == 0) { u = r.below(4) ? r.f(-1, 2) : 0.f; v = r.below(4) ? r.f(-1, 1) : -r.logf_(1e-6, 1e-2); cuvn(); } // imaginary colours
        cur("Yuv", {Yl, u, v});
        D du = D::in(u), dv_ = D::in(v), d2 = D(2, 0) * du - D(8, 0) * dv_ + D(4, 0);
        if (std::fabs(d2.v) > 0.1)
        {
            D xx = D(3, 0) * du / d2, yy = D(2, 0) * dv_ / d2, zz = D(1, 0) - xx - yy;
            near(muv, Tristimulus::x_from_uv(u, v), xx, "x_from_uv"); near(muv, Tristimulus::y_from_uv(u, v), yy, "y_from_uv");
            const Tristimulus W(Yl, u, v);
            cmp(muv, Tristimulus::YuvToYxy(W), dY, xx, yy, "YuvToYxy");
            if (std::fabs(yy.v) > 1e-7)
            {
                cmp(mfu, W.fromYuv(), xx * dY / yy, dY, zz * dY / yy, "fromYuv"); cmp(mfu, Tristimulus::fromYuv(W), xx * dY / yy, dY, zz * dY / yy, "fromYuv (static)");
                cmp(mfu, Tristimulus::fromYuv(Yl, u, v), xx * dY / yy, dY, zz * dY / yy, "fromYuv (three floats)");
            }
        }
    }
}
