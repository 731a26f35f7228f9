// C01: 3x3 matrix and 3-vector algebra
#include "common.hpp"
using namespace H;
namespace
{
typedef std::array<float, 9> A9;
typedef std::array<float, 3> A3;
Matrix3 mk(const A9 &a) { return Matrix3(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); }
A9 un(const Matrix3 &m) { A9 r; for (int i = 0; i < 9; i++) r[i] = m[i]; return r; }

float entry(Rng &r, int kind)
{
    switch (kind)
    {
    case 0: return (float)((int)r.below(13) - 6);
    case 1: return r.f(-2, 2);
    case 2: return r.sgn() * r.logf_(1e-6, 1e6);
    case 3: { uint32_t k = r.below(8); return k < 3 ? 0.f : (k == 3 ? 1.f : (k == 4 ? -1.f : r.f(-1, 1))); }
    case 4: return r.f(0, 1);
    default: return r.sgn() * r.logf_(1e-3, 1e3);
    }
}
A9 gen(Rng &r)
{
    A9 a;
    int kind = r.below(9);
    if (kind == 8) // near the identity, or the identity, or a repeated row or column pattern
    {
        for (int i = 0; i < 9; i++) a[i] = (i % 4 == 0 ? 1.f : 0.f) + (r.below(2) ? 0.f : r.sgn() * r.logf_(1e-7, 0.3));
        if (r.below(8) == 0) for (int i = 0; i < 9; i++) a[i] = i % 4 == 0;
    }
    if (kind < 6) { for (auto &x : a) x = entry(r, kind); }
    if (kind == 6) // special shapes: permutations, triangular, diagonal, symmetric
    {
        a = {0, 0, 0, 0, 0, 0, 0, 0, 0};
        int s = r.below(5);
        static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        if (s == 0) { auto p = P[r.below(6)]; for (int i = 0; i < 3; i++) a[i * 3 + p[i]] = r.sgn() * r.f(0.1, 3); }
        if (s == 1) for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) a[i * 3 + j] = r.f(-2, 2);
        if (s == 2) for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) a[i * 3 + j] = r.f(-2, 2);
        if (s == 3) for (int i = 0; i < 3; i++) a[i * 4] = r.sgn() * r.logf_(1e-3, 1e3);
        if (s == 4) for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) a[i * 3 + j] = a[j * 3 + i] = r.f(-2, 2);
    }
    if (kind == 7) // rotation-ish scaled, well conditioned
    {
        double t = r.d(0, 6.283), c = std::cos(t), s = std::sin(t), k = r.logf_(1e-2, 1e2);
        int ax = r.below(3);
        double m[9] = {1, 0, 0, 0, c, -s, 0, s, c};
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a[((i + ax) % 3) * 3 + (j + ax) % 3] = (float)(k * m[i * 3 + j]);
    }
    if (r.below(12) == 0) { for (auto &x : a) x = r.sgn() * r.logf_(1e-20, 1e12); return a; }
    if (r.below(6) == 0) { float k = r.logf_(1e-8, 1e8); for (auto &x : a) x *= k; }
    if (r.below(10) == 0) { int i = r.below(3); float k = r.logf_(1e-4, 1e4); bool row = r.below(2); for (int j = 0; j < 3; j++) a[row ? i * 3 + j : j * 3 + i] *= k; }
    return a;
}
void run_()
{
    Rng r = rng("c01");
    Mon &mmul = mon("product"), &mapp = mon("matrix-vector"), &mdet = mon("determinant"), &minv = mon("inverse"),
        &mmove = mon("layout: rows, columns, transpose, diagonal, identity"), &mlin = mon("sum and scalar multiples"),
        &mct = mon("crosstalk"), &mover = mon("overloads agree"), &mvec = mon("vector dot");
    Cls cinv("invertible, cond<1e4", 500), cill("cond>=1e4", 50), cneg("negative determinant", 200), cint("integer matrices", 200),
        cz("matrix with zero entries", 200), csame("aliased operands", 100), cwide("any finite entries", 200);
    long n = N(250000);
    for (long it = 0; it < n; it++)
    {
        A9 a = gen(r), b = gen(r);
        bool alias = r.below(16) == 0;
        if (alias) { b = a; csame(); }
        else if (r.below(16) == 0) for (int i = 0; i < 9; i++) b[i] = a[(i % 3) * 3 + i / 3];
        else if (r.below(16) == 0) for (int i = 0; i < 9; i++) b[i] = -a[i];
        else if (r.below(16) == 0) for (int i = 0; i < 9; i++) if (r.below(2)) b[i] = a[i];
        A3 v = {entry(r, r.below(6)), entry(r, r.below(6)), entry(r, r.below(6))};
        A3 w = {entry(r, r.below(6)), entry(r, r.below(6)), entry(r, r.below(6))};
        if (r.below(16) == 0) w = v;
        if (r.below(16) == 0) { int i = r.below(3); v[(i + 1) % 3] = v[i]; if (r.below(2)) v[(i + 2) % 3] = v[i]; }
        float s = r.below(6) == 0 ? r.pick<float>({0.f, 1.f, -1.f, 2.f, 0.5f}) : entry(r, 1 + r.below(2));
        if (r.below(4) == 0) s = r.sgn() * r.logf_(1e-36, 1e36);
        const bool wide = r.below(24) == 0; // any finite floats, denormal or huge
        if (wide)
        {
            cwide();
            auto any = [&] { return r.below(3) ? anyfinite(r) : r.below(3) ? r.sgn() * r.logf_(1e-38, 1e38) : entry(r, r.below(6)); };
            for (auto &x : a) x = any();
            for (auto &x : v) x = any();
            if (!alias) for (auto &x : b) x = any(); else b = a;
            for (auto &x : w) x = any();
        }
        cur("matrix", {a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], v[0], v[1], v[2], w[0], w[1], w[2], s});
        bool isint = true, hasz = false;
        for (float x : a) { if (x != std::floor(x)) isint = false; if (x == 0) hasz = true; }
        if (isint) cint();
        if (hasz) cz();
        const Matrix3 Ma = mk(a), Mb = mk(b);
        const Vector3 V(v[0], v[1], v[2]), W(w[0], w[1], w[2]);
        // layout
        for (int i = 0; i < 9; i++) same(mmove, Ma[i], a[i], "element");
        same(mmove, Ma.size(), 9, "size");
        same(mmove, V.size(), 3, "vector size");
        { int i = 0; for (float x : Ma) same(mmove, x, a[i++], "iteration"); same(mmove, i, 9, "iteration count"); }
        { int i = 0; for (float x : V) same(mmove, x, v[i++], "vector iteration"); same(mmove, i, 3, "vector iteration count"); }
        same(mmove, V.x(), v[0], "x"); same(mmove, V.y(), v[1], "y"); same(mmove, V.z(), v[2], "z");
        for (int i = 0; i < 3; i++)
        {
            same(mmove, V[i], v[i], "vector element");
            const Vector3 ro = Ma.row(i), co = Ma.col(i);
            for (int j = 0; j < 3; j++) { same(mmove, ro[j], a[i * 3 + j], "row"); same(mmove, co[j], a[j * 3 + i], "column"); }
        }
        const Matrix3 T1 = Ma.transpose(), T2 = Matrix3::transpose(Ma);
        const Matrix3 DG = Matrix3::diag(V), ID, FA = Matrix3::fromArray(a.data());
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
        {
            same(mmove, T1[i * 3 + j], a[j * 3 + i], "transpose");
            same(mmove, T2[i * 3 + j], a[j * 3 + i], "transpose (static)");
            same(mmove, DG[i * 3 + j], i == j ? v[i] : 0.f, "diagonal");
            same(mmove, ID[i * 3 + j], i == j ? 1.f : 0.f, "default is identity");
            same(mmove, FA[i * 3 + j], a[i * 3 + j], "from array");
        }
        // product
        const Matrix3 P1 = Ma.mul(alias ? Ma : Mb), P2 = Matrix3::mul(Ma, Mb);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
        {
            D d(0, 0);
            for (int k = 0; k < 3; k++) d = d + D::in(a[i * 3 + k]) * D::in(b[k * 3 + j]);
            near(mmul, P1[i * 3 + j], d, "product");
            near(mmul, P2[i * 3 + j], d, "product (static)");
        }
        const Vector3 Q1 = Ma.apply(V), Q2 = Matrix3::apply(Ma, V);
        for (int i = 0; i < 3; i++)
        {
            D d(0, 0);
            for (int k = 0; k < 3; k++) d = d + D::in(a[i * 3 + k]) * D::in(v[k]);
            near(mapp, Q1[i], d, "apply");
            near(mapp, Q2[i], d, "apply (static)");
        }
        {
            D d(0, 0);
            for (int k = 0; k < 3; k++) d = d + D::in(v[k]) * D::in(w[k]);
            near(mvec, V.dot(W), d, "dot");
            near(mvec, Vector3::dot(V, W), d, "dot (static)");
        }
        // linear
        const Matrix3 S1 = Ma.add(Mb), S2 = Matrix3::add(Ma, Mb), C1 = Ma.mul(s), C2 = Matrix3::mul(Ma, s);
        for (int i = 0; i < 9; i++)
        {
            near(mlin, S1[i], D::in(a[i]) + D::in(b[i]), "sum");
            near(mlin, S2[i], D::in(a[i]) + D::in(b[i]), "sum (static)");
            near(mlin, C1[i], D::in(a[i]) * D::in(s), "scaled");
            near(mlin, C2[i], D::in(a[i]) * D::in(s), "scaled (static)");
        }
        if (std::fabs(s) > 1e-37)
        {
            const Matrix3 D1 = Ma.div(s), D2 = Matrix3::div(Ma, s);
            for (int i = 0; i < 9; i++)
            {
                near(mlin, D1[i], D::in(a[i]) / D::in(s), "divided", K0, 1e-44 * std::fabs((double)a[i])); // 1/s may be subnormal
                near(mlin, D2[i], D::in(a[i]) / D::in(s), "divided (static)", K0, 1e-44 * std::fabs((double)a[i]));
            }
        }
        // determinant, inverse
        auto X = [&](int i) { return D::in(a[i]); };
        D cof[9] = {X(4) * X(8) - X(5) * X(7), X(2) * X(7) - X(1) * X(8), X(1) * X(5) - X(2) * X(4),
            X(5) * X(6) - X(3) * X(8), X(0) * X(8) - X(2) * X(6), X(2) * X(3) - X(0) * X(5),
            X(3) * X(7) - X(4) * X(6), X(1) * X(6) - X(0) * X(7), X(0) * X(4) - X(1) * X(3)};
        D det = X(0) * cof[0] + X(1) * cof[3] + X(2) * cof[6];
        if (!wide)
        {
            near(mdet, Ma.det(), det, "determinant");
            near(mdet, Matrix3::det(Ma), det, "determinant (static)");
        }
        double na = 0, ni = 0, amax = 0;
        for (int i = 0; i < 9; i++) { na += (double)a[i] * a[i]; ni += cof[i].v / det.v * (cof[i].v / det.v); amax = std::max(amax, (double)std::fabs(a[i])); }
        double cond = std::sqrt(na * ni);
        if (!wide && det.v != 0 && std::fabs(det.v) > 1e-30 && std::fabs(det.v) < 1e30 && cond < 1e6 && amax < 1e12 && amax > 1e-12)
        {
            if (cond < 1e4) cinv(); else cill();
            if (det.v < 0) cneg();
            const Matrix3 I1 = Ma.invert(), I2 = Matrix3::invert(Ma);
            for (int i = 0; i < 9; i++)
            {
                D ref = cof[i] / det;
                double extra = 8 * EPS * cond * std::sqrt(ni); // any backward-stable method may be used
                near(minv, I1[i], ref, "inverse", K0, extra);
                near(minv, I2[i], ref, "inverse (static)", K0, extra);
            }
        }
        // crosstalk
        float q = r.below(8) == 0 ? r.pick<float>({0.f, 0.05f, 0.1f, 0.25f, 0.5f, 1.f, -0.1f}) : r.f(-0.5, 1.5);
        if (r.below(4) == 0) q = r.sgn() * r.logf_(1e-7, 1e6);
        if (r.below(4) == 0) q = (1 + r.sgn() * r.logf_(1e-4, 1)) / 3;
        if (std::fabs(3 * q - 1) > 1e-4)
        {
            cur("crosstalk", {q});
            const Matrix3 Ct = Matrix3::crosstalk(q), Ci = Matrix3::crosstalkInvert(q);
            D Q = D::in(q), den = D(3, 0) * Q - D(1, 0);
            for (int i = 0; i < 9; i++)
            {
                near(mct, Ct[i], i % 4 == 0 ? D(1, 0) - D(2, 0) * Q : Q, "crosstalk");
                near(mct, Ci[i], i % 4 == 0 ? (Q - D(1, 0)) / den : Q / den, "inverse crosstalk");
            }
        }
    }
}
} // namespace
void run() { run_(); }
