// C02: tristimulus arithmetic, ordering and clipping
#include "common.hpp"
using namespace H;
namespace
{
float gen(Rng &r)
{
    switch (r.below(7))
    {
    case 0: return r.pick<float>({0.f, -0.f, 1.f, -1.f, 0.5f, 2.f, FLT_MIN, -FLT_MIN, FLT_MAX, -FLT_MAX, 1e-45f, -1e-45f, 1e-8f, 255.f, 100.f});
    case 1: return r.f(0, 1);
    case 2: return r.f(-2, 2);
    case 3: return r.sgn() * r.logf_(1e-12, 1e12);
    case 4: return anyfinite(r);
    case 5: return ulps(r.pick<float>({0.f, 1.f, -1.f, 0.18f}), (int)r.below(5) - 2);
    default: return (float)((int)r.below(21) - 10) / 4;
    }
}
Tristimulus tri(const float *p) { return Tristimulus(p[0], p[1], p[2]); }
} // namespace
void run()
{
    Rng r = rng("c02");
    Mon &ml = mon("construction and access"), &ma = mon("add, multiply, scale, divide"), &md = mon("dot and matrix"),
        &mm = mon("min, max"), &mc = mon("clip"), &mn = mon("positive, hasNegative, abs");
    Cls ceq("equal channels", 1000), cneg("has negative channel", 1000), cover("clips a channel", 1000), cin("inside the clip range", 100),
        cdeg("clip with equal bounds", 100), cord("each order of the channels", 100);
    long n = N(500000);
    for (long it = 0; it < n; it++)
    {
        float a[3], b[3], s = gen(r), l = gen(r), h = gen(r), m[9];
        for (auto &x : a) x = gen(r);
        for (auto &x : b) x = gen(r);
        for (auto &x : m) x = r.below(4) ? r.f(-2, 2) : (float)((int)r.below(3) - 1);
        switch (r.below(6))
        {
        case 0: a[1] = a[0]; break;
        case 1: a[2] = a[0]; break;
        case 2: a[2] = a[1]; break;
        case 3: if (r.below(4) == 0) b[r.below(3)] = a[r.below(3)]; break;
        }
        if (r.below(3) == 0) { l = r.f(-1, 0.7); h = r.f(0.3, 2); for (auto &x : a) x = r.f(-1.5, 2.5); }
        if (l > h) std::swap(l, h);
        if (r.below(20) == 0) { h = l; cdeg(); }
        cur("tristimulus", {a[0], a[1], a[2], b[0], b[1], b[2], s, l, h});
        const Tristimulus A = tri(a), B = tri(b);
        if (a[0] == a[1] || a[1] == a[2] || a[0] == a[2]) ceq(); else cord();
        // access
        const Tristimulus Z, F(s), V(Vector3(a[0], a[1], a[2]));
        same(ml, A.a(), a[0], "a"); same(ml, A.b(), a[1], "b"); same(ml, A.c(), a[2], "c");
        same(ml, A.size(), 3, "size");
        { int i = 0; for (float x : A) same(ml, x, a[i++], "iteration"); same(ml, i, 3, "iteration count"); }
        for (int i = 0; i < 3; i++)
        {
            same(ml, A[i], a[i], "element"); same(ml, A.vec3()[i], a[i], "vec3"); same(ml, Z[i], 0, "default is black");
            same(ml, F[i], s, "scalar broadcast"); same(ml, V[i], a[i], "from vector");
        }
        // arithmetic
        const Tristimulus s1 = A.add(B), s2 = A + B, s3 = Tristimulus::add(A, B), p1 = A.mul(B), p2 = A * B, p3 = Tristimulus::mul(A, B),
                          k1 = A.scale(s), k2 = A * s, k3 = Tristimulus::scale(A, s);
        D dot(0, 0);
        for (int i = 0; i < 3; i++)
        {
            D x = D::in(a[i]), y = D::in(b[i]), k = D::in(s);
            near(ma, s1[i], x + y, "add"); near(ma, s2[i], x + y, "operator+"); near(ma, s3[i], x + y, "add (static)");
            near(ma, p1[i], x * y, "mul"); near(ma, p2[i], x * y, "operator*"); near(ma, p3[i], x * y, "mul (static)");
            near(ma, k1[i], x * k, "scale"); near(ma, k2[i], x * k, "operator* scalar"); near(ma, k3[i], x * k, "scale (static)");
            dot = dot + x * y;
        }
        if (std::fabs(s) > 1e-37)
        {
            const Tristimulus q = A / s;
            for (int i = 0; i < 3; i++) near(ma, q[i], D::in(a[i]) / D::in(s), "operator/", K0, 1e-44 * std::fabs((double)a[i])); // 1/s may be subnormal
        }
        {
            double big = 0;
            for (int i = 0; i < 3; i++) big = std::max(big, std::fabs((double)a[i] * b[i]));
            if (big < 1e37) { near(md, A.dot(B), dot, "dot"); near(md, Tristimulus::dot(A, B), dot, "dot (static)"); }
            double am = std::max({std::fabs(a[0]), std::fabs(a[1]), std::fabs(a[2])});
            if (am < 1e37)
            {
                const Matrix3 M(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
                const Tristimulus t1 = A.apply(M), t2 = Tristimulus::apply(A, M);
                for (int i = 0; i < 3; i++)
                {
                    D d = D::in(m[i * 3]) * D::in(a[0]) + D::in(m[i * 3 + 1]) * D::in(a[1]) + D::in(m[i * 3 + 2]) * D::in(a[2]);
                    near(md, t1[i], d, "apply"); near(md, t2[i], d, "apply (static)");
                }
            }
        }
        // order
        const Tristimulus n1 = A.min(B), n2 = Tristimulus::min(A, B), x1 = A.max(B), x2 = Tristimulus::max(A, B);
        for (int i = 0; i < 3; i++)
        {
            same(mm, n1[i], std::min(a[i], b[i]), "min"); same(mm, n2[i], std::min(a[i], b[i]), "min (static)");
            same(mm, x1[i], std::max(a[i], b[i]), "max"); same(mm, x2[i], std::max(a[i], b[i]), "max (static)");
        }
        same(mm, A.min3(), std::min({a[0], a[1], a[2]}), "min3");
        same(mm, A.max3(), std::max({a[0], a[1], a[2]}), "max3");
        same(mm, Tristimulus::mini(a[0], b[0]), std::min(a[0], b[0]), "mini");
        same(mm, Tristimulus::maxi(a[0], b[0]), std::max(a[0], b[0]), "maxi");
        // clip
        const Tristimulus c1 = A.clip(l, h), c2 = Tristimulus::clip(A, l, h), cc = c1.clip(l, h);
        bool out = false;
        for (int i = 0; i < 3; i++)
        {
            float w = a[i] < l ? l : (a[i] > h ? h : a[i]);
            if (w != a[i]) out = true;
            same(mc, c1[i], w, "clip"); same(mc, c2[i], w, "clip (static)"); same(mc, cc[i], w, "clip twice");
        }
        if (out) cover(); else cin();
        const Tristimulus q1 = A.positive(), q2 = Tristimulus::positive(A);
        bool neg = a[0] < 0 || a[1] < 0 || a[2] < 0;
        if (neg) cneg();
        for (int i = 0; i < 3; i++)
        {
            same(mn, q1[i], a[i] < 0 ? 0.f : a[i], "positive"); same(mn, q2[i], a[i] < 0 ? 0.f : a[i], "positive (static)");
            same(mn, A.isNegative(a[i]), a[i] < 0, "isNegative");
            same(mn, Tristimulus::abs_f(a[i]), std::fabs(a[i]), "abs");
        }
        same(mn, A.hasNegative(), neg, "hasNegative"); same(mn, Tristimulus::hasNegative(A), neg, "hasNegative (static)");
        same(mn, q1.hasNegative(), false, "positive() leaves a negative");
    }
}
