// A second translation unit of C25, with its own copy of the call table (namespace H is renamed); its battery runs before
// every dynamic initialiser of the program and again on request
#define H H_before_main
#define NO_MAIN
#include "ops.hpp"
namespace
{
enum { SLOTS = 20000 };
uint64_t slot[SLOTS];
int filled;
uint64_t one(uint64_t seed, int k)
{
    auto &t = H::ops();
    H::Ctx c(seed + 7919ull * (uint64_t)k, 0);
    t[(size_t)k % t.size()].f(c);
    uint64_t h = 0x1234567 + c.out.size();
    for (uint32_t u : c.out) { h = (h ^ u) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    return h;
}
struct Early
{
    Early()
    {
        const char *n = getenv("C25_EARLY"), *s = getenv("C25_SEED");
        if (!n || !s) return;
        int want = atoi(n);
        if (want > SLOTS) want = SLOTS;
        struct rlimit old, lim;
        getrlimit(RLIMIT_CPU, &old);
        lim = old;
        lim.rlim_cur = 120; // a call that hangs here ends the process, which the driver reports
        setrlimit(RLIMIT_CPU, &lim);
        for (; filled < want; filled++) slot[filled] = one(strtoull(s, nullptr, 10), filled);
        setrlimit(RLIMIT_CPU, &old);
    }
};
Early early __attribute__((init_priority(101)));
} // namespace
int tu_early(int k, uint64_t *h) { if (k >= filled) return 0; *h = slot[k]; return 1; }
uint64_t tu_now(uint64_t seed, int k) { return one(seed, k); }
