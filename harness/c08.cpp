// C08: each transfer function is the published curve, and clamps where it says it does
#include "otfref.hpp"
using namespace H;
namespace
{
// published value, with float noise; near a breakpoint either piece is right
void enc(int t, float x, float g, float y, Mon &m)
{
    const Curve &c = curve(t);
    double ref = c.enc(x, g), tol = cnoise(t, ref, g);
    double a = std::min({c.enc(ulps(x, -4), g), ref, c.enc(ulps(x, 4), g)}), b = std::max({c.enc(ulps(x, -4), g), ref, c.enc(ulps(x, 4), g)});
    if (t == 4) tol = PQ_NOISE * 0.5;
    m.checks++;
    if (!((double)y >= a - tol && (double)y <= b + tol)) fail(m, fmt("encode gave %.9g, the curve is %.9g +- %.3g", y, ref, tol));
}
void dec(int t, float v, float g, float y, Mon &m)
{
    const Curve &c = curve(t);
    double ref = c.dec(v, g);
    double dv_ = t == 4 ? PQ_NOISE * 0.5 : 4 * EPS * std::fabs(v) + (t >= 5 ? 3e-7 : 1e-7);
    if (t == 1) dv_ = 0;
    double p = c.dec(v - dv_, g), q = c.dec(v + dv_, g);
    double tol = c.sabs + (c.srel + 4 * EPS) * std::fabs(ref) + 1e-44;
    if (t == 1) tol += EPS * 8 * g * (2 + std::fabs(std::log(std::max((double)v, 1e-40)))) * ref;
    double a = std::min({p, q, ref}), b = std::max({p, q, ref});
    m.checks++;
    if (!((double)y >= a - tol && (double)y <= b + tol)) fail(m, fmt("decode gave %.9g, the curve is %.9g (allowed %.9g..%.9g)", y, ref, a - tol, b + tol));
}
} // namespace
void run()
{
    Rng r = rng("c08");
    Mon &mcl = mon("clamping outside the domain"), &mir = mon("S-Log2 code value and IRE"), &mpub = mon("published anchor points");
    Cls ccl("values outside the domain", 2000), cbp("values at a breakpoint", 2000), ccv("code values of 8 to 16 bits", 50000);
    for (int t = 1; t < 9; t++)
    {
        Mon &me = mon((std::string(TNAME[t]) + " encode").c_str()), &md = mon((std::string(TNAME[t]) + " decode").c_str());
        Cls ct((std::string(TNAME[t]) + " points").c_str(), 10000);
        long n = N(160000);
        for (long it = 0; it < n; it++)
        {
            ct();
            float x = genscene(r, t), v = gencode(r, t), g = t == 1 ? gengamma(r) : r.f(0.5, 3);
            for (float bp : {0.0031308f, 0.018f, 0.01125f, 1.f}) if (std::fabs(x - bp) < 1e-3 * bp) cbp();
            cur(TNAME[t], {x, v, g});
            enc(t, x, g, enc1(t, x, g), me);
            dec(t, v, g, dec1(t, v, g), md);
            if (it % 4 == 0)
            {
                float xs[3] = {x, x, x}, vs[3] = {v, v, v};
                if (r.below(2)) for (int i = 0; i < 3; i++) { xs[i] = genscene(r, t); vs[i] = gencode(r, t); }
                cur(TNAME[t], {xs[0], xs[1], xs[2], vs[0], vs[1], vs[2], g});
                const Tristimulus E = OTF::toScreen(TYPES[t], Tristimulus(xs[0], xs[1], xs[2]), g), Dd = OTF::toScene(TYPES[t], Tristimulus(vs[0], vs[1], vs[2]), g);
                for (int i = 0; i < 3; i++) { enc(t, xs[i], g, E[i], me); dec(t, vs[i], g, Dd[i], md); }
            }
        }
        const Curve &c = curve(t);
        // every code value of the usual bit depths
        for (int q : {255, 1023, 1024, 4095, 4096, 65535}) for (int k = opt.shard; k <= q; k += opt.shards)
        {
            const float f = (float)k / q, g = t == 1 ? r.pick<float>({1.f, 1.8f, 2.f, 2.2f, 2.4f, 2.6f}) : 1.f;
            if (f < c.clo || f > c.chi) continue;
            cur("code value", {(double)t, (double)k, (double)q, g});
            ccv();
            dec(t, f, g, dec1(t, f, g), md);
            if (f >= c.slo && f <= c.shi) enc(t, f, g, enc1(t, f, g), me);
        }
        if (t > 1)
        {
            uint32_t step = (uint32_t)((opt.thorough ? 32 : 10000) / std::min(1.0, std::max(opt.scale, 0.02)));
            for (int side = 0; side < 2; side++)
            {
                uint32_t hi = ubits(side ? c.chi : c.shi), lo = ubits(side ? std::max(c.clo, 0.f) : std::max(c.slo, 0.f));
                if (lo < ubits(1e-10f)) lo = ubits(1e-10f);
                uint64_t u = lo + (uint64_t)opt.shard * step / opt.shards + r.below(step);
                for (; u <= hi; u += step)
                {
                    float f = fbits((uint32_t)u);
                    cur(side ? "stride code" : "stride scene", {(double)t, f});
                    if (side) dec(t, f, 1.f, dec1(t, f, 1.f), md); else enc(t, f, 1.f, enc1(t, f, 1.f), me);
                }
            }
        }
    }
    // out of domain
    long n = N(100000);
    for (long it = 0; it < n; it++)
    {
        ccl();
        float neg = r.below(8) == 0 ? r.pick<float>({-1e-45f, -FLT_MIN, -1.f, -FLT_MAX, -INFINITY}) : -r.logf_(1e-30, 1e30);
        float big = r.below(8) == 0 ? r.pick<float>({FLT_MAX, INFINITY, 2.f}) : r.logf_(1, 1e30);
        float g1 = 1 + r.logf_(1.2e-7, 1e10), p100 = r.below(4) ? 100.f * g1 : 100.f;
        cur("outside", {neg, big, g1, p100});
        same(mcl, OTF::Y_to_sRGB(neg), 0, "sRGB encode below 0"); same(mcl, OTF::sRGB_to_Y(neg), 0, "sRGB decode below 0");
        same(mcl, OTF::Y_to_BT709(neg), 0, "BT.709 encode below 0"); same(mcl, OTF::BT709_to_Y(neg), 0, "BT.709 decode below 0");
        same(mcl, OTF::Y_to_ST2084(neg), 0, "PQ encode below 0"); same(mcl, OTF::Y_to_HLG(neg), 0, "HLG encode below 0"); same(mcl, OTF::HLG_to_Y(neg), 0, "HLG decode below 0");
        for (float b : {big, g1}) if (b > 1)
        {
            same(mcl, OTF::Y_to_sRGB(b), 1, "sRGB encode above 1"); same(mcl, OTF::sRGB_to_Y(b), 1, "sRGB decode above 1");
            same(mcl, OTF::Y_to_BT709(b), 1, "BT.709 encode above 1"); same(mcl, OTF::BT709_to_Y(b), 1, "BT.709 decode above 1");
        }
        same(mcl, OTF::Y_to_ST2084(p100), 1, "PQ encode at or above 100");
        near(mcl, OTF::Y_to_SLog(neg), D(curve(5).enc(0, 0), 1), "S-Log encode below 0 is that of 0");
        near(mcl, OTF::Y_to_SLog(p100), D(curve(5).enc(10, 0), 1), "S-Log encode above 10 is that of 10");
        float nl = -r.logf_(1e-6, 10);
        near(mcl, OTF::Y_to_SLog2(nl), D(curve(6).enc(nl, 0), 1 + 4 * std::fabs(nl)), "S-Log2 encode is linear below 0");
        near(mcl, OTF::Y_to_SLog3(nl), D(curve(7).enc(nl, 0), 1 + 8 * std::fabs(nl)), "S-Log3 encode is linear below 0");
        // decoding goes on beyond the coded range
        for (int t : {5, 6, 7, 8})
        {
            float q = r.below(2) ? r.f(1, 1.4) : (t == 5 || t == 7 ? -r.logf_(1e-6, 0.5) : r.f(1, 1.1));
            cur(TNAME[t], {q});
            double lo = curve(t).dec(q - 4e-7 * (1 + std::fabs(q)), 1), hi = curve(t).dec(q + 4e-7 * (1 + std::fabs(q)), 1), ref = curve(t).dec(q, 1);
            near(mcl, dec1(t, q, 1.f), D(ref, 0), "decoding beyond the coded range", 0, 1.5 * (hi - lo) + 4e-6 * std::fabs(ref) + 5e-8);
            near(mcl, OTF::toScene(TYPES[t], Tristimulus(0.3f, q, 0.3f))[1], D(ref, 0), "decoding beyond the coded range, colour form", 0, 1.5 * (hi - lo) + 4e-6 * std::fabs(ref) + 5e-8);
        }
        float cl2 = r.f(-1, 0.0880);
        same(mcl, OTF::SLog2_to_Y(cl2) , 0, "S-Log2 decode below black is 0");
        float cv = r.f(-1, 2);
        near(mir, OTF::CV_to_IRE_SLog2(cv), (D::in(cv) - D(64.0 / 1024, 0)) / D(876.0 / 1024, 0), "CV_to_IRE");
        near(mir, OTF::IRE_to_CV_SLog2(cv), D::in(cv) * D(876.0 / 1024, 0) + D(64.0 / 1024, 0), "IRE_to_CV");
        float h = r.f(12, 1000);
        near(mcl, OTF::Y_to_HLG(h), D(curve(8).enc(h, 0), 3), "HLG encode above 12 continues");
        // the colour forms clamp and continue alike, channel by channel
        for (int t = 2; t < 9; t++)
        {
            float v3[3] = {neg, t >= 5 && t <= 7 ? r.logf_(1, 1e4) : big, r.f(0, 1)};
            if (t >= 6 && t <= 7) v3[0] = nl;
            int rot = r.below(3);
            cur(TNAME[t], {v3[rot], v3[(rot + 1) % 3], v3[(rot + 2) % 3]});
            const Tristimulus e = OTF::toScreen(TYPES[t], Tristimulus(v3[rot], v3[(rot + 1) % 3], v3[(rot + 2) % 3]));
            for (int i = 0; i < 3; i++)
            {
                const float q = v3[(rot + i) % 3];
                double ref = curve(t).enc(q, 1);
                if (!std::isfinite(ref)) continue;
                double tol = t == 4 ? PQ_NOISE : 2e-6; // at a breakpoint either piece is right
                if (std::fabs(q) < 1e30) tol += std::max(std::fabs(curve(t).enc(ulps(q, -4), 1) - ref), std::fabs(curve(t).enc(ulps(q, 4), 1) - ref));
                near(mcl, e[i], D(ref, 4 * std::fabs(ref) + 2), "colour form outside the domain", K0, tol);
            }
            if (t == 2 || t == 3 || t == 8)
            {
                float c3[3] = {neg, t == 8 ? r.f(0, 1) : big, r.f(0, 1)};
                const Tristimulus d = OTF::toScene(TYPES[t], Tristimulus(c3[rot], c3[(rot + 1) % 3], c3[(rot + 2) % 3]));
                for (int i = 0; i < 3; i++)
                {
                    float q = c3[(rot + i) % 3];
                    if (t == 3 && q > 0.0805 && q < 0.0815) continue;
                    double ref = curve(t).dec(q, 1);
                    near(mcl, d[i], D(ref, 8 * std::fabs(ref) + 2), "colour form outside the domain", K0, 1e-5 * std::fabs(ref));
                }
            }
        }
        const float L = r.sgn() * r.logf_(1e-20, 1e20);
        const Tristimulus l1 = OTF::toScreen(OTF::LINEAR, Tristimulus(L, neg, g1), g1), l2 = OTF::toScene(OTF::LINEAR, Tristimulus(L, neg, g1), g1);
        same(mcl, l1[0], L, "linear"); same(mcl, l1[1], neg, "linear"); same(mcl, l1[2], g1, "linear"); same(mcl, l2[0], L, "linear"); same(mcl, l2[1], neg, "linear"); same(mcl, l2[2], g1, "linear");
    }
    // published anchors
    cur("anchors", {0.18, 420.0 / 1023});
    near(mpub, OTF::Y_to_SLog3(0.18f), D(420.0 / 1023, 2), "S-Log3 18% is code 420");
    near(mpub, OTF::Y_to_SLog3(0.f), D(95.0 / 1023, 2), "S-Log3 0% is code 95");
    near(mpub, OTF::Y_to_SLog3(0.9f), D(598.0 / 1023, 2), "S-Log3 90% is code 598", K0, 0.5 / 1023);
    near(mpub, OTF::Y_to_ST2084(1.f), D(0.508078421, 2), "PQ of 100 nit", K0, 3e-5);
    near(mpub, OTF::Y_to_ST2084(10.f), D(0.751827096, 2), "PQ of 1000 nit", K0, 3e-5);
    near(mpub, OTF::Y_to_HLG(1.f), D(0.5, 2), "HLG half code at 1"); near(mpub, OTF::Y_to_HLG(12.f), D(1, 2), "HLG full code at 12", K0, 2e-6);
    near(mpub, OTF::Y_to_sRGB(0.5f), D(0.735356983, 2), "sRGB of 0.5"); near(mpub, OTF::Y_to_BT709(0.5f), D(0.705515089, 2), "BT.709 of 0.5");
}
