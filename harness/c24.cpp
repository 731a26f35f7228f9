// C24: util::sqrtf on every float: the square root to the last place, NaN outside its domain, always terminates
#include "common.hpp"
using namespace H;
void run()
{
    Rng r = rng("c24");
    Mon &mv = mon("square root to two last places"), &mn = mon("NaN outside [0, inf)"), &mz = mon("zero"), &mm = mon("non-decreasing up to rounding"), &me = mon("perfect squares to the last place");
    Cls cd("denormals", 1000), cs("below 1", 1000), cb("above 1", 1000), cneg("negative", 1000), cnan("NaN bit patterns", 1000);
    auto one = [&](float x) {
        double g = CS::util::sqrtf(x), s = std::sqrt((double)x);
        mv.checks++;
        if (!(std::fabs(g - s) <= 2.01 * EPS * s)) { cur("sqrtf", {x}); fail(mv, fmt("got %.9g, expected %.9g", g, s)); }
    };
    // every float of a residue class; the thorough tier scale makes the stride 1 over all processes
    uint64_t stride = opt.thorough && opt.variant == "rel" ? (uint64_t)opt.shards : (uint64_t)(opt.shards * std::max(1.0, std::floor(48 / opt.scale)));
    uint64_t start = opt.thorough ? (uint64_t)opt.shard : (opt.shard + (opt.seed * 7919) * (uint64_t)opt.shards) % stride;
    uint64_t cnt = 0, per = 0;
    for (uint64_t u = start; u < 0x7f800000ull; u += stride)
    {
        float x = fbits((uint32_t)u);
        if ((++cnt & 4095) == 0) { cur("sqrtf", {x}); also({}); }
        cur_.a[0] = x; cur_.n = 1; cur_.op = "sqrtf"; progress_ = progress_ + 1;
        if (x == 0) same(mz, CS::util::sqrtf(x), 0, "sqrt(0)"); else one(x);
        (x < FLT_MIN ? cd : (x < 1 ? cs : cb))();
        per++;
    }
    evals_ += per;
    note(fmt("swept %llu float patterns with stride %llu", (unsigned long long)per, (unsigned long long)stride));
    same(mz, CS::util::sqrtf(0.f), 0, "sqrt(0)"); same(mz, CS::util::sqrtf(-0.f), 0, "sqrt(-0)");
    for (float x : {FLT_TRUE_MIN, FLT_MIN, ulps(FLT_MIN, -1), FLT_MAX, 1.f, ulps(1.f, -1), ulps(1.f, 1)}) { cur("sqrtf", {x}); one(x); }
    cur("sqrtf", {INFINITY}); check(mn, std::isnan(CS::util::sqrtf(INFINITY)), "inf");
    cur("sqrtf", {-INFINITY}); check(mn, std::isnan(CS::util::sqrtf(-INFINITY)), "-inf");
    long n = N(400000);
    for (long it = 0; it < n; it++)
    {
        uint32_t neg = 0x80000001u + r.below(0x7f7fffffu), nan = (r.below(2) ? 0x7f800001u : 0xff800001u) + r.below(0x7ffffe);
        cur("sqrtf", {fbits(neg)}); cneg();
        check(mn, std::isnan(CS::util::sqrtf(fbits(neg))), "negative");
        cur("sqrtf", {NAN, (double)nan}); cnan();
        check(mn, std::isnan(CS::util::sqrtf(fbits(nan))), "NaN");
        float a = fbits(r.below(0x7f800000u)), b = fbits(r.below(0x7f800000u));
        if (r.below(2)) b = ulps(a, 1 + r.below(100));
        if (!std::isfinite(b)) continue;
        if (a > b) std::swap(a, b);
        cur("sqrtf pair", {a, b});
        check(mm, CS::util::sqrtf(a) <= CS::util::sqrtf(b) * (1 + 4 * EPS), "order");
        float q = (float)r.below(4096);
        cur("sqrtf square", {q * q});
        near(me, CS::util::sqrtf(q * q), D(q, 0), "perfect square", 0, EPS * q);
    }
}
