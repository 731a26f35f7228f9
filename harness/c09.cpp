// C09: transfer functions are monotone, bounded and finite, act on each channel alone, and are selected by their type
#include "otfref.hpp"
using namespace H;
void run()
{
    Rng r = rng("c09");
    Mon &mmon = mon("monotone"), &mstr = mon("strictly increasing between resolvable values"), &mfin = mon("finite"), &mb = mon("within the signal range"), &mch = mon("channels are independent"), &mdis = mon("type selects the function");
    Cls cpair("ordered pairs", 20000), cnear("adjacent floats", 5000), cbp("pairs across a breakpoint", 2000), cperm("permuted channels", 5000), cwide("inputs far outside the range", 2000), cout("colours with channels outside the domain", 2000);
    for (int t = 0; t < 9; t++)
    {
        const Curve &c = curve(t);
        long n = N(160000);
        for (long it = 0; it < n; it++)
        {
            float g = t == 1 ? gengamma(r) : 1.f;
            float a = genscene(r, t), b;
            switch (r.below(4))
            {
            case 0: b = ulps(a, 1 + r.below(3)); cnear(); break;
            case 1: { float bp = r.pick<float>({0.0031308f, 0.018f, 0.01125f, 1.f, 10.f}); a = bp * (1 - r.logf_(1e-7, 1e-1)); b = bp * (1 + r.logf_(1e-7, 1e-1)); cbp(); break; }
            default: b = genscene(r, t);
            }
            if (t > 1 && r.below(10) == 0) { b = t >= 5 && t <= 7 ? r.logf_(1, 1e4) : r.logf_(1, 1e6); cwide(); }
            if (a > b) std::swap(a, b);
            cpair();
            cur(TNAME[t], {a, b, g});
            {
                float ya = enc1(t, a, g), yb = enc1(t, b, g);
                double na = cnoise(t, ya, g), nb = cnoise(t, yb, g);
                check(mfin, std::isfinite(ya) && std::isfinite(yb), "encode not finite");

                mmon.checks++;
                if (!((double)yb >= (double)ya - na - nb)) fail(mmon, fmt("encode(%.9g) = %.9g but encode(%.9g) = %.9g", a, ya, b, yb));
                double ra = c.enc(a, g), rb = c.enc(b, g);
                if (rb - ra > 4 * (na + nb)) { mstr.checks++; if (!(yb > ya)) fail(mstr, fmt("encode(%.9g) = %.9g, encode(%.9g) = %.9g", a, ya, b, yb)); }
                if (t >= 2 && t <= 4) check(mb, ya >= 0 && ya <= 1 && yb >= 0 && yb <= 1, "code outside 0..1");
                if (t == 8) check(mb, ya >= 0 && (a > 12 || ya <= 1.000001f), "HLG code outside 0..1");
                if (t == 5) check(mb, ya >= 0.03f && yb <= 1.0803f, "S-Log code outside its range");
            }
            float u = gencode(r, t), w;
            switch (r.below(3))
            {
            case 0: w = ulps(u, 1 + r.below(3)); break;
            case 1: { float bp = r.pick<float>({0.04045f, 0.081f, 0.5f, 0.16736099f, 0.08817f}); u = bp * (1 - r.logf_(1e-7, 1e-1)); w = bp * (1 + r.logf_(1e-7, 1e-1)); break; }
            default: w = gencode(r, t);
            }
            if (u > w) std::swap(u, w);
            cur(TNAME[t], {u, w, g, 1});
            {
                float xu = dec1(t, u, g), xw = dec1(t, w, g);
                check(mfin, std::isfinite(xu) && std::isfinite(xw), "decode not finite");
                double nn = 2 * cnoise(t, w, g), ru = c.dec(u, g), rw = c.dec(w, g);
                double slack = std::max(std::fabs(c.dec(w + nn, g) - rw), std::fabs(rw - c.dec(w - nn, g))) + c.sabs + (c.srel + 8 * EPS) * std::fabs(rw) + 1e-44;
                if (t == 1) slack += EPS * 16 * g * (2 + std::fabs(std::log(std::max((double)w, 1e-40)))) * rw;
                if (t == 3 && w > 0.0805 && u < 0.0815) slack += 1e-4;
                mmon.checks++;
                if (!((double)xw >= (double)xu - 2 * slack)) fail(mmon, fmt("decode(%.9g) = %.9g but decode(%.9g) = %.9g", u, xu, w, xw));
                if (rw - ru > 6 * slack) { mstr.checks++; if (!(xw > xu)) fail(mstr, fmt("decode(%.9g) = %.9g, decode(%.9g) = %.9g", u, xu, w, xw)); }
                if (t == 2 || t == 3) check(mb, xu >= 0 && xw <= 1, "scene value outside 0..1");
                if (t == 4) check(mb, xu >= 0 && xw <= 100.05f, "PQ scene value outside 0..100");
                if (t == 6 || t == 8) check(mb, xu >= 0, "negative scene value");
            }
            // channels: each one alone, in any position, next to any others
            float q[3] = {genscene(r, t), genscene(r, t), genscene(r, t)}, k[3] = {gencode(r, t), gencode(r, t), gencode(r, t)};
            if (r.below(4) == 0) { q[1] = q[0]; k[2] = k[0]; }
            cur(TNAME[t], {q[0], q[1], q[2], k[0], k[1], k[2], g});
            cperm();
            const Tristimulus S = OTF::toScreen(TYPES[t], Tristimulus(q[0], q[1], q[2]), g), S2 = OTF::toScreen(TYPES[t], Tristimulus(q[2], q[0], q[1]), g);
            const Tristimulus C = OTF::toScene(TYPES[t], Tristimulus(k[0], k[1], k[2]), g), C2 = OTF::toScene(TYPES[t], Tristimulus(k[2], k[0], k[1]), g);
            for (int i = 0; i < 3; i++)
            {
                // the same value may be computed in a vector or scalar way: a few ulps, amplified by the curve
                double te = t == 0 ? 0 : 2 * cnoise(t, S[i], g), rd = c.dec(k[i], g);
                double nd = t == 0 ? 0 : 2 * cnoise(t, k[i], g), td = t == 0 ? 0 : std::fabs(c.dec(k[i] + nd, g) - c.dec(k[i] - nd, g)) + std::fabs(c.dec(k[i] + nd, g) - rd) + std::fabs(c.dec(k[i] - nd, g) - rd) + c.sabs + (c.srel + 8 * EPS) * std::fabs(rd) + 1e-44;
                if (t == 1) td += EPS * 16 * g * (2 + std::fabs(std::log(std::max((double)k[i], 1e-40)))) * rd;
                check(mch, std::fabs((double)S[i] - S2[(i + 1) % 3]) <= te, "toScreen depends on the position of a channel");
                check(mch, std::fabs((double)C[i] - C2[(i + 1) % 3]) <= td, "toScene depends on the position of a channel");
                check(mdis, std::fabs((double)S[i] - enc1(t, q[i], g)) <= te, "toScreen is not the function of its type");
                check(mdis, std::fabs((double)C[i] - dec1(t, k[i], g)) <= td, "toScene is not the function of its type");
                if (t != 0)
                {
                    check(mdis, std::fabs((double)S[i] - c.enc(q[i], g)) <= 1e-4 + 1e-4 * std::fabs((double)S[i]) + (t == 3 ? 3e-4 : 0), "toScreen is not the curve of its type");
                }
                else { same(mdis, S[i], q[i], "linear"); same(mdis, C[i], k[i], "linear"); }
            }
            // outside the domain too: the colour form is the single-channel function, whatever that does
            if (it % 4 == 0)
            {
                auto w1 = [&](float x) -> float { switch (r.below(5)) { case 0: return r.logf_(1, 1e6); case 1: return -r.logf_(1e-6, 1e3); case 2: return r.pick<float>({0.f, 1.f, -0.f, 100.f, -1.f, 1e20f}); default: return x; } };
                auto w2 = [&](float x) -> float { switch (r.below(5)) { case 0: return r.f(1, 1.2); case 1: return r.f(-0.5, 0); case 2: return r.pick<float>({0.f, 1.f, -0.f, 0.5f}); default: return x; } };
                float qq[3], kk[3];
                for (int i = 0; i < 3; i++) { qq[i] = w1(q[i]); kk[i] = w2(k[i]); }
                cur(TNAME[t], {qq[0], qq[1], qq[2], kk[0], kk[1], kk[2], g, 2});
                cout();
                const Tristimulus O = OTF::toScreen(TYPES[t], Tristimulus(qq[0], qq[1], qq[2]), g), I = OTF::toScene(TYPES[t], Tristimulus(kk[0], kk[1], kk[2]), g);
                for (int i = 0; i < 3; i++)
                {
                    double e = enc1(t, qq[i], g), d = dec1(t, kk[i], g);
                    mdis.checks += 2;
                    if (!(std::isnan(e) ? std::isnan(O[i]) : e == O[i] || std::fabs(e - O[i]) <= 2e-4 + 1e-4 * std::fabs(e))) fail(mdis, fmt("channel %d: toScreen gave %.9g, the function of its type %.9g", i, O[i], e));
                    if (!(std::isnan(d) ? std::isnan(I[i]) : d == I[i] || std::fabs(d - I[i]) <= 1e-4 + 3e-3 * std::fabs(d))) fail(mdis, fmt("channel %d: toScene gave %.9g, the function of its type %.9g", i, I[i], d));
                }
            }
            // the default parameter is a gamma of one
            if (it % 16 == 0)
            {
                const Tristimulus d1 = OTF::toScreen(TYPES[t], Tristimulus(q[0], q[1], q[2])), d2 = OTF::toScreen(TYPES[t], Tristimulus(q[0], q[1], q[2]), 1.f);
                const Tristimulus e1 = OTF::toScene(TYPES[t], Tristimulus(k[0], k[1], k[2])), e2 = OTF::toScene(TYPES[t], Tristimulus(k[0], k[1], k[2]), 1.f);
                for (int i = 0; i < 3; i++) { same(mdis, d1[i], d2[i], "default gamma"); same(mdis, e1[i], e2[i], "default gamma"); }
                if (t == 1) for (int i = 0; i < 3; i++) near(mdis, d1[i], D(q[i]), "gamma 1 is the identity");
                if (t != 1)
                {
                    float g2 = r.below(2) ? r.f(0.5, 4) : r.pick<float>({0.f, -1.f, 1e-6f, 1e6f, 2.2f, 100.f, 0.1f, -2.4f, 1e-30f});
                    const Tristimulus f1 = OTF::toScreen(TYPES[t], Tristimulus(q[0], q[1], q[2]), g2), f2 = OTF::toScene(TYPES[t], Tristimulus(k[0], k[1], k[2]), g2);
                    for (int i = 0; i < 3; i++) { same(mdis, f1[i], d1[i], "gamma parameter only affects GAMMA"); same(mdis, f2[i], e1[i], "gamma parameter only affects GAMMA"); }
                }
            }
        }
    }
}
