// C04: gamuts: primaries, white point, RGB <-> XYZ, conversion between gamuts
#include "common.hpp"
using namespace H;
namespace
{
DM prim(const float *p)
{
    DM m;
    for (int j = 0; j < 3; j++) { m.a[j] = D::in(p[2 * j]); m.a[3 + j] = D::in(p[2 * j + 1]); m.a[6 + j] = D(1, 0) - m.a[j] - m.a[3 + j]; }
    return m;
}
struct Ref { DM to, from; DV coef; };
bool ref(const float *p, Ref &o)
{
    DM m = prim(p), mi = dinv(m);
    D x = D::in(p[6]), y = D::in(p[7]);
    DV w = dv(x / y, D(1, 0), (D(1, 0) - x - y) / y);
    o.coef = dapply(mi, w);
    DM dg;
    for (auto &z : dg.a) z = D(0, 0);
    for (int j = 0; j < 3; j++) dg.a[j * 4] = o.coef.a[j];
    o.to = dmul(m, dg);
    o.from = dinv(o.to);
    double s = 0;
    for (auto &z : o.from.a) { if (!std::isfinite(z.e)) return false; s = std::max(s, z.e); }
    for (auto &z : o.to.a) if (!std::isfinite(z.e)) return false;
    return s < 2e4; // well enough conditioned for single precision
}
void cmpm(Mon &m, const Matrix3 &g, const DM &d, const char *w) { for (int i = 0; i < 9; i++) near(m, g[i], d.a[i], w); }
void cmpv(Mon &m, const Tristimulus &g, const DV &d, const char *w) { for (int i = 0; i < 3; i++) near(m, g[i], d.a[i], w); }
DM lift(const Matrix3 &m) { DM d; for (int i = 0; i < 9; i++) d.a[i] = D::in(m[i]); return d; }
bool gen(Rng &r, float *p)
{
    static const float known[8][8] = {{0.64f, 0.33f, 0.21f, 0.71f, 0.15f, 0.06f, 0.3127f, 0.3290f}, {0.64f, 0.33f, 0.30f, 0.60f, 0.15f, 0.06f, 0.3127f, 0.3290f},
        {0.708f, 0.292f, 0.17f, 0.797f, 0.131f, 0.046f, 0.3127f, 0.3290f}, {0.68f, 0.32f, 0.265f, 0.69f, 0.15f, 0.06f, 0.314f, 0.351f},
        {0.73f, 0.28f, 0.14f, 0.855f, 0.10f, -0.05f, 0.3127f, 0.3290f}, {0.766f, 0.275f, 0.225f, 0.800f, 0.089f, -0.087f, 0.3127f, 0.3290f},
        {0.713f, 0.293f, 0.165f, 0.830f, 0.128f, 0.044f, 0.32168f, 0.33767f}, {0.73470f, 0.26530f, 0.f, 1.f, 0.0001f, -0.077f, 0.32168f, 0.33767f}};
    int k = r.below(4);
    if (k == 0) memcpy(p, known[r.below(8)], 32);
    else if (k == 1) { memcpy(p, known[r.below(8)], 32); for (int i = 0; i < 8; i++) p[i] += r.f(-0.02, 0.02); }
    else if (k == 2)
    {
        const float b[8] = {0.66f, 0.31f, 0.2f, 0.75f, 0.14f, 0.04f, 0.3127f, 0.329f};
        for (int i = 0; i < 6; i++) p[i] = b[i] + r.f(-0.12, 0.12);
        p[6] = r.f(0.28, 0.45); p[7] = r.f(0.28, 0.42);
    }
    else
    {
        for (int i = 0; i < 6; i++) p[i] = r.f(-0.1, 1);
        double a = r.d(0.05, 1), b = r.d(0.05, 1), c = r.d(0.05, 1), s = a + b + c;
        for (int i = 0; i < 2; i++) p[6 + i] = (float)((a * p[i] + b * p[2 + i] + c * p[4 + i]) / s);
    }
    if (r.below(6) == 0) // coordinates exactly on an axis or on the line x + y = 1, or shared between primaries
        for (int i = 0; i < 3; i++) switch (r.below(8))
        {
        case 0: p[2 * i] = 0; break;
        case 1: p[2 * i + 1] = 0; break;
        case 2: p[2 * i + 1] = 1 - p[2 * i]; break;
        case 3: p[2 * i] = 1; p[2 * i + 1] = 0; break;
        case 4: p[2 * i] = 0; p[2 * i + 1] = r.below(2); break;
        case 5: p[2 * i + r.below(2)] = p[2 * r.below(3) + r.below(2)]; break;
        default: break;
        }
    if (r.below(16) == 0) p[7] = p[6] = (float)(1.0 / 3);
    if (r.below(16) == 0) { p[6] = r.f(0.1, 0.6); p[7] = r.f(0.1, 0.7); }
    if (r.below(32) == 0) { p[6] = r.f(-1, 2); p[7] = r.sgn() * r.logf_(0.06, 2); if (r.below(2)) p[6] = r.pick<float>({0.f, 1.f, 0.5f}); if (r.below(4) == 0) p[7] = r.pick<float>({1.f, 0.5f}); }
    double area = std::fabs((p[2] - p[0]) * (double)(p[5] - p[1]) - (p[4] - p[0]) * (double)(p[3] - p[1]));
    return area > 0.03 && std::fabs(p[7]) > 0.05;
}
} // namespace
void run()
{
    Rng r = rng("c04");
    Mon &mdef = mon("RGB to XYZ matrix"), &minv = mon("XYZ to RGB matrix"), &mw = mon("RGB white is the white point, Y = 1"),
        &mpr = mon("primaries have the given chromaticities"), &mrec = mon("primaries and white are recovered"), &mrt = mon("round trip RGB"),
        &mrx = mon("round trip XYZ"), &mcv = mon("conversion between gamuts"), &mcx = mon("conversion preserves XYZ"), &mself = mon("conversion to itself is the identity"),
        &mmat = mon("gamut given as a matrix"), &mapi = mon("overloads and name"), &mlin = mon("colour transform is the matrix");
    Cls cneg("primary with negative y", 300), cbuilt("published primaries", 500), crand("random primaries", 500), cor("clockwise primaries", 100), cout("colour outside the gamut", 500), chdr("colour above 1", 500), csame("two gamuts of the same name", 500), clong("names of 300 characters", 300), cgm("gamut from a general matrix", 500), cacc("accessors of a gamut from a general matrix", 300), ckin("two gamuts that share part of their definition", 500);
    long n = N(120000);
    for (long it = 0; it < n; it++)
    {
        float p[8], q[8];
        if (!gen(r, p) || !gen(r, q)) { it--; progress_ = progress_ + 1; continue; }
        bool kin = r.below(4) == 0;
        if (kin) // two gamuts that agree in part of their definition
        {
            uint32_t keep = r.below(256), white = r.below(3);
            for (int i = 0; i < 8; i++) if (white == 0 ? i < 6 : (white == 1 ? i >= 6 : (keep >> i & 1))) q[i] = p[i];
            if (r.below(3) == 0) for (int i = 0; i < 8; i++) q[i] = p[i] + (r.below(2) ? 0.f : r.sgn() * r.logf_(1e-5, 1e-2));
            double area = std::fabs((q[2] - q[0]) * (double)(q[5] - q[1]) - (q[4] - q[0]) * (double)(q[3] - q[1]));
            if (!(area > 0.03 && q[7] > 0.05)) { it--; progress_ = progress_ + 1; continue; }
        }
        Ref A, B;
        if (!ref(p, A) || !ref(q, B)) { it--; progress_ = progress_ + 1; continue; }
        float c[3];
        int ck = r.below(8);
        for (auto &x : c) x = ck == 0 ? r.f(-0.5, 1.5) : (ck == 1 ? r.logf_(1e-5, 1) : (ck == 2 ? r.f(0, 100) : (ck == 3 ? (float)r.below(2) : (ck == 4 ? r.sgn() * r.logf_(1e-6, 1e5) : r.f(0, 1)))));
        if (ck == 5) c[1] = c[2] = c[0] = r.logf_(1e-4, 1e4);
        if (c[0] < 0 || c[1] < 0 || c[2] < 0) cout();
        if (c[0] > 1 || c[1] > 1 || c[2] > 1) chdr();
        cur("gamut", {p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], c[0], c[1], c[2]});
        if (p[1] < 0 || p[3] < 0 || p[5] < 0) cneg();
        if (p[0] == 0.64f || p[0] == 0.708f || p[0] == 0.68f || p[0] == 0.73f || p[0] == 0.766f || p[0] == 0.713f || p[0] == 0.73470f) cbuilt(); else crand();
        if ((p[2] - p[0]) * (double)(p[5] - p[1]) - (p[4] - p[0]) * (double)(p[3] - p[1]) < 0) cor();
        char name[24], name2[24];
        static const std::string longname(300, 'n'), longname2(299, 'n');
        const char *nm = name, *nq = name2;
        snprintf(name, 24, "g%ld", it);
        snprintf(name2, 24, "q%ld", it);
        switch (r.below(6)) // names are labels: they may coincide, be empty or be those of other gamuts
        {
        case 0: nq = nm; csame(); break;
        case 1: memcpy(name2, name, 24); csame(); break;
        case 4: if (r.below(4) == 0) { nm = longname.c_str(); nq = longname2.c_str(); clong(); } break;
        case 2: nm = "Rec.709"; nq = r.below(2) ? "XYZ" : "ACES cg"; break;
        case 3: name[0] = 0; if (r.below(2)) name2[0] = 0; break;
        default: break;
        }
        if (kin) ckin();
        const Gamut G(nm, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), Q(nq, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
        const char *gn = G.name(), *qn = Q.name();
        check(mapi, strcmp(gn, nm) == 0 && strcmp(qn, nq) == 0, "name is kept");
        const Matrix3 to = G.toXYZ(), from = G.fromXYZ();
        cmpm(mdef, to, A.to, "toXYZ()");
        cmpm(mdef, Gamut::fromPrimaries(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), A.to, "fromPrimaries");
        cmpm(mdef, Gamut::primMat(p[0], p[1], p[2], p[3], p[4], p[5]), prim(p), "primMat");
        {
            const Matrix3 dgm = Gamut::diag(Vector3(c[0], c[1], c[2]));
            for (int i = 0; i < 9; i++) same(mapi, dgm[i], i % 4 == 0 ? c[i / 4] : 0.f, "diag");
            const Matrix3 md = Gamut::mulDiag(Gamut::primMat(p[0], p[1], p[2], p[3], p[4], p[5]), Tristimulus::fromYxy(1.f, p[6], p[7]).vec3());
            cmpm(mdef, md, A.to, "mulDiag");
        }
        cmpm(minv, from, A.from, "fromXYZ()");
        // white and primaries, from the specification alone
        D wx = D::in(p[6]), wy = D::in(p[7]);
        DV white = dv(wx / wy, D(1, 0), (D(1, 0) - wx - wy) / wy);
        DV wt = dapply(A.to, dv(D(1, 0), D(1, 0), D(1, 0)));
        const Tristimulus W = G.toXYZ(Tristimulus(1.f, 1.f, 1.f));
        for (int i = 0; i < 3; i++) near(mw, W[i], D(white.a[i].v, wt.a[i].e), "white");
        for (int j = 0; j < 3; j++)
        {
            const Tristimulus e = G.toXYZ(Tristimulus(j == 0, j == 1, j == 2));
            D s = A.to.a[j] + A.to.a[3 + j] + A.to.a[6 + j];
            double sum = (double)e[0] + e[1] + e[2];
            near(mpr, e[0] / sum, D(p[2 * j], (A.to.a[j] / s).e), "x of a primary");
            near(mpr, e[1] / sum, D(p[2 * j + 1], (A.to.a[3 + j] / s).e), "y of a primary");
            const Tristimulus pr = j == 0 ? G.primaryRed() : (j == 1 ? G.primaryGreen() : G.primaryBlue());
            near(mrec, pr[0], D(p[2 * j], (A.to.a[j] / s).e), "recovered x");
            near(mrec, pr[1], D(p[2 * j + 1], (A.to.a[3 + j] / s).e), "recovered y");
            near(mrec, pr[2], D(1.0 - p[2 * j] - p[2 * j + 1], (A.to.a[6 + j] / s).e), "recovered z");
            near(mrec, G.primaryVector()[j], D(A.coef.a[j].v, s.e), "primaryVector");
            const Matrix3 pm = G.primaryMatrix();
            for (int i = 0; i < 3; i++) same(mrec, pm[i * 3 + j], pr[i], "primaryMatrix column");
        }
        const Tristimulus pw = G.primaryWhite();
        for (int i = 0; i < 3; i++) near(mrec, pw[i], D(white.a[i].v, 2 * wt.a[i].e), "recovered white");
        // colours
        const Tristimulus C(c[0], c[1], c[2]);
        DV dc = dv(D::in(c[0]), D::in(c[1]), D::in(c[2]));
        const Tristimulus X = G.toXYZ(C);
        cmpv(mdef, X, dapply(A.to, dc), "toXYZ(colour)");
        cmpv(mlin, X, dapply(lift(to), dc), "toXYZ(colour) is toXYZ() applied");
        DV back = dapply(A.from, dapply(A.to, dc));
        for (int i = 0; i < 3; i++) near(mrt, G.fromXYZ(X)[i], D(c[i], back.a[i].e), "RGB -> XYZ -> RGB");
        const Tristimulus R2 = G.fromXYZ(C);
        cmpv(mlin, R2, dapply(lift(from), dc), "fromXYZ(colour) is fromXYZ() applied");
        DV bk2 = dapply(A.to, dapply(A.from, dc));
        for (int i = 0; i < 3; i++) near(mrx, G.toXYZ(R2)[i], D(c[i], bk2.a[i].e), "XYZ -> RGB -> XYZ");
        // conversion
        DM cv = dmul(B.from, A.to);
        const Matrix3 M = CS::GamutConvert(G, Q);
        cmpm(mcv, M, cv, "GamutConvert");
        DV rgb2 = dapply(cv, dc), xyz2 = dapply(B.to, rgb2), xyz1 = dapply(A.to, dc);
        const Tristimulus X2 = Q.toXYZ(C.apply(M));
        for (int i = 0; i < 3; i++) near(mcx, X2[i], D(xyz1.a[i].v, xyz2.a[i].e), "same XYZ after conversion");
        const Matrix3 I = CS::GamutConvert(G, G);
        DM id = dmul(A.from, A.to);
        for (int i = 0; i < 9; i++) near(mself, I[i], D(i % 4 == 0 ? 1 : 0, id.a[i].e), "conversion to itself");
        // by matrix
        if (it % 3 == 0)
        {
            const Gamut H2("m", from);
            for (int i = 0; i < 9; i++) same(mmat, H2.fromXYZ()[i], from[i], "given matrix is XYZ to RGB");
            cmpm(mmat, H2.toXYZ(), dinv(lift(from)), "its inverse is RGB to XYZ");
            check(mmat, strcmp(H2.name(), "m") == 0, "name");
            const Tristimulus xr = H2.toXYZ(C);
            cmpv(mmat, xr, dapply(dinv(lift(from)), dc), "toXYZ(colour)");
            // any invertible matrix is a gamut
            float g[9];
            int gk = r.below(4);
            for (auto &x : g) x = gk == 0 ? r.f(-2, 2) : (gk == 1 ? (float)((int)r.below(7) - 3) : (gk == 2 ? r.f(-1, 1) + 0.f : r.sgn() * r.logf_(1e-3, 1e2)));
            if (gk == 2) for (int i = 0; i < 3; i++) g[i * 4] += 2;
            if (r.below(4) == 0) for (int i = 0; i < 9; i++) if (r.below(2) && i % 4) g[i] = 0;
            DM gd, gi;
            for (int i = 0; i < 9; i++) gd.a[i] = D::in(g[i]);
            gi = dinv(gd);
            double worst = 0, nm2 = 0, ni2 = 0;
            for (int i = 0; i < 9; i++) { worst = std::max(worst, gi.a[i].e / (std::fabs(gi.a[i].v) + 1e-3)); nm2 += (double)g[i] * g[i]; ni2 += gi.a[i].v * gi.a[i].v; }
            if (std::isfinite(worst) && nm2 * ni2 < 1e6)
            {
                cgm();
                cur("gamut by matrix", {g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], c[0], c[1], c[2]});
                const Gamut H3(nm, Matrix3(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8]));
                double extra = 8 * EPS * std::sqrt(nm2) * ni2;
                for (int i = 0; i < 9; i++) { same(mmat, H3.fromXYZ()[i], g[i], "given matrix is XYZ to RGB"); near(mmat, H3.toXYZ()[i], gi.a[i], "its inverse is RGB to XYZ", K0, extra); }
                cmpv(mmat, H3.fromXYZ(C), dapply(gd, dc), "fromXYZ(colour)");
                DV t3 = dapply(gi, dc);
                for (int i = 0; i < 3; i++) near(mmat, H3.toXYZ(C)[i], t3.a[i], "toXYZ(colour)", K0, extra * (std::fabs(c[0]) + std::fabs(c[1]) + std::fabs(c[2])));
                // what the accessors say of it: the sums, chromaticities and row sums of its own RGB to XYZ matrix
                const DM h3 = lift(H3.toXYZ());
                bool sums = true;
                D sm[3];
                for (int j = 0; j < 3; j++) { sm[j] = h3.a[j] + h3.a[3 + j] + h3.a[6 + j]; sums = sums && std::fabs(sm[j].v) > 1e-3 * (std::fabs(h3.a[j].v) + std::fabs(h3.a[3 + j].v) + std::fabs(h3.a[6 + j].v)); }
                if (sums)
                {
                    cacc();
                    for (int j = 0; j < 3; j++)
                    {
                        const Tristimulus pr = j == 0 ? H3.primaryRed() : (j == 1 ? H3.primaryGreen() : H3.primaryBlue());
                        for (int i = 0; i < 3; i++) near(mrec, pr[i], h3.a[3 * i + j] / sm[j], "primary of a gamut given as a matrix");
                        near(mrec, H3.primaryVector()[j], sm[j], "primaryVector of a gamut given as a matrix");
                        D row = h3.a[3 * j] + h3.a[3 * j + 1] + h3.a[3 * j + 2], t = h3.a[3 * j] / sm[0] * sm[0] + h3.a[3 * j + 1] / sm[1] * sm[1] + h3.a[3 * j + 2] / sm[2] * sm[2];
                        near(mrec, H3.primaryWhite()[j], D(row.v, t.e), "white of a gamut given as a matrix");
                    }
                }
                const Matrix3 m1 = CS::GamutConvert(G, H3);
                DM e1 = dmul(gd, A.to);
                for (int i = 0; i < 9; i++) near(mmat, m1[i], e1.a[i], "conversion to it");
            }
        }
    }
    // the built-in gamuts, all ordered pairs
    const Gamut *gs[] = {&CS::AdobeRGB, &CS::Rec709, &CS::Rec2020, &CS::DCI_P3, &CS::S_Gamut, &CS::S_Gamut3_Cine, &CS::ACEScg, &CS::ACES2065, &CS::LMS, &CS::XYZ};
    for (auto *a : gs) for (auto *b : gs) for (int t = 0; t < N(300); t++)
    {
        float c[3];
        for (auto &x : c) x = r.f(0, 1);
        cur("builtin pair", {(double)(a - gs[0]), (double)(b - gs[0]), c[0], c[1], c[2]});
        const Tristimulus C(c[0], c[1], c[2]);
        const Tristimulus x1 = a->toXYZ(C), x2 = b->toXYZ(C.apply(CS::GamutConvert(*a, *b))), c2 = a->fromXYZ(x1);
        for (int i = 0; i < 3; i++)
        {
            near(mcx, x2[i], D(x1[i], 12), "built-in pair keeps XYZ"); // entries and their products stay below ten
            near(mrt, c2[i], D(c[i], 12), "built-in round trip");
        }
    }
}
