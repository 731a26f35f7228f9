// C07: every transfer function and its inverse undo each other
#include "otfref.hpp"
using namespace H;
namespace
{
struct M { Mon *s, *c; Cls *cl; };
// y = decode(encode(x)): must lie between decode_ref(code -+ noise)
void scene(int t, float x, float g, float y, Mon &m)
{
    const Curve &c = curve(t);
    if (t == 0) { same(m, y, x, "scene round trip"); return; }
    double code = c.enc(x, g), n = 2 * cnoise(t, code, g);
    double lo = c.dec(code - n, g), hi = c.dec(code + n, g);
    if (t == 3 && code > 0.0803 && code < 0.0820) { lo = std::min(lo, x - 2.5e-4); hi = std::max(hi, x + 2.5e-4); } // the published BT.709 pieces do not meet exactly
    if (t == 2 && code > 0.0404 && code < 0.0405) { lo -= 5e-7; hi += 5e-7; }
    double sl = c.sabs + c.srel * std::fabs((double)x) + 1e-44;
    if (t == 1) sl += EPS * 8 * g * (2 + std::fabs(std::log(std::max((double)x, 1e-40)))) * x;
    m.checks++;
    if (!((double)y >= std::min(lo, (double)x) - sl && (double)y <= std::max(hi, (double)x) + sl)) fail(m, fmt("scene %.9g came back as %.9g (allowed %.9g..%.9g)", x, y, lo - sl, hi + sl));
}
void code(int t, float v, float g, float w, Mon &m)
{
    const Curve &c = curve(t);
    if (t == 0) { same(m, w, v, "code round trip"); return; }
    double x = c.dec(v, g);
    double n = 2 * cnoise(t, v, g);
    // noise of the decoded value in float, seen through the encoder
    double s = c.sabs + c.srel * std::fabs(x) + EPS * std::fabs(x) + 1e-44;
    if (t == 1) s += EPS * 8 * g * (2 + std::fabs(std::log(std::max((double)v, 1e-40)))) * x;
    double e0 = c.enc(x, g), d = std::max(std::fabs(c.enc(x + s, g) - e0), std::fabs(c.enc(x - s, g) - e0));
    double tol = n + 2 * d;
    if (t == 3 && v > 0.0803 && v < 0.0820) tol += 5e-4;
    m.checks++;
    if (!(std::fabs((double)w - v) <= tol)) fail(m, fmt("code %.9g came back as %.9g (allowed +-%.3g)", v, w, tol));
}
} // namespace
void run()
{
    Rng r = rng("c07");
    for (int t = 0; t < 9; t++)
    {
        Mon &ms = mon((std::string(TNAME[t]) + " scene->code->scene").c_str()), &mc = mon((std::string(TNAME[t]) + " code->scene->code").c_str());
        Cls ct((std::string(TNAME[t]) + " round trips").c_str(), 5000);
        long n = N(160000);
        for (long it = 0; it < n; it++)
        {
            ct();
            float x[3], v[3], g = t == 1 ? gengamma(r) : (r.below(2) ? 1.f : 2.2f);
            for (auto &z : x) z = genscene(r, t);
            for (auto &z : v) z = gencode(r, t);
            cur(TNAME[t], {x[0], x[1], x[2], v[0], v[1], v[2], g});
            const Tristimulus X(x[0], x[1], x[2]), V(v[0], v[1], v[2]);
            const Tristimulus back = OTF::toScene(TYPES[t], OTF::toScreen(TYPES[t], X, g), g), bv = OTF::toScreen(TYPES[t], OTF::toScene(TYPES[t], V, g), g);
            for (int i = 0; i < 3; i++) { scene(t, x[i], g, back[i], ms); code(t, v[i], g, bv[i], mc); }
            scene(t, x[0], g, dec1(t, enc1(t, x[0], g), g), ms);
            code(t, v[0], g, enc1(t, dec1(t, v[0], g), g), mc);
        }
        // every code value of the usual bit depths
        if (t > 0) for (int q : {255, 1023, 1024, 4095, 4096, 65535}) for (int k = opt.shard; k <= q; k += opt.shards)
        {
            const Curve &c = curve(t);
            const float f = (float)k / q, g = t == 1 ? r.pick<float>({1.f, 1.8f, 2.f, 2.2f, 2.4f, 2.6f}) : 1.f;
            if (f < c.clo || f > c.chi) continue;
            cur("code value", {(double)t, (double)k, (double)q, g});
            code(t, f, g, enc1(t, dec1(t, f, g), g), mc);
            if (f >= c.slo && f <= c.shi) scene(t, f, g, dec1(t, enc1(t, f, g), g), ms);
        }
        // a stride over every float of the domain
        if (t > 1)
        {
            const Curve &c = curve(t);
            uint32_t step = (uint32_t)((opt.thorough ? 64 : 20000) / std::min(1.0, std::max(opt.scale, 0.02)));
            for (int side = 0; side < 2; side++)
            {
                uint32_t hi = ubits(side ? c.chi : c.shi), lo = ubits(side ? std::max(c.clo, 0.f) : std::max(c.slo, 0.f));
                if (lo < ubits(1e-10f)) lo = ubits(1e-10f);
                uint64_t u = lo + (uint64_t)opt.shard * step / opt.shards + r.below(step);
                for (; u <= hi; u += step)
                {
                    float f = fbits((uint32_t)u);
                    cur(side ? "stride code" : "stride scene", {(double)t, f});
                    if (side) code(t, f, 1.f, enc1(t, dec1(t, f, 1.f), 1.f), mc);
                    else scene(t, f, 1.f, dec1(t, enc1(t, f, 1.f), 1.f), ms);
                }
            }
        }
    }
}
