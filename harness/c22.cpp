// C22: memory safety, defined behaviour and termination of the whole interface on hostile values; the sanitizers,
// container assertions, signal handlers and the hang watch are the monitors
#include "ops.hpp"
#include <malloc.h>
using namespace H;
#if !defined(VSAN) && !defined(VVG)
// every byte the process holds through operator new, so that what each call leaves behind can be counted
static long long liveBytes = 0;
static void *take(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); liveBytes += (long long)malloc_usable_size(p); return p; }
static void give(void *p) { if (p) { liveBytes -= (long long)malloc_usable_size(p); free(p); } }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
struct Kept { long long calls = 0, live = 0, at[2] = {0, 0}; };
static std::map<std::string, Kept> kept;
#endif
void run()
{
    Mon &ms = mon("calls that returned cleanly"), &mg = mon("an ICC profile gives the identity gamut"), &mb = mon("an ICC profile is only read");
    for (auto &o : ops()) need(o.name, 30);
    Cls c0("ordinary values", 1000), c1("any finite values", 1000), c2("any bit patterns", 1000);
    uint64_t floats = 0, nans = 0, infs = 0;
    long n = N(16000);
    Rng r = rng("c22");
    for (long it = 0; it < n; it++)
        for (auto &o : ops())
        {
            int mode = r.below(5);
            mode = mode == 0 ? 0 : (mode < 3 ? 1 : 2);
            uint64_t seed = r.u64();
            if (!strcmp(o.name, "Corrector chart") || !strcmp(o.name, "Macbeth reference") || !strcmp(o.name, "Corrector")) { if (it % 8) continue; }
            cur(o.name, {(double)mode, (double)(seed >> 32), (double)(uint32_t)seed});
            (mode == 0 ? c0 : (mode == 1 ? c1 : c2))();
            cls(o.name);
#if !defined(VSAN) && !defined(VVG)
            Kept &k = kept[o.name];
            const long long all = (!strcmp(o.name, "Corrector chart") || !strcmp(o.name, "Macbeth reference") || !strcmp(o.name, "Corrector")) ? (n + 7) / 8 : n;
            if (k.calls == all / 16) k.at[0] = k.live;
            if (k.calls == all / 4) k.at[1] = k.live;
            k.calls++;
            const long long before = liveBytes;
#endif
            {
            Ctx c(seed, mode);
            o.f(c);
            ms.checks++;
            for (uint32_t u : c.out) { floats++; if (u == 0x7fc00000u) nans++; else if ((u & 0x7fffffff) == 0x7f800000u) infs++; }
            if (!strcmp(o.name, "ICC profile")) { bool ok = c.out.size() >= 18; for (int i = 0; ok && i < 18; i++) ok = fbits(c.out[i]) == ((i % 9) % 4 == 0 ? 1.f : 0.f); check(mg, ok, "not the identity"); check(mb, c.out.size() >= 2 && c.out[c.out.size() - 2] == 1, "the profile was changed"); }
            }
#if !defined(VSAN) && !defined(VVG)
            k.live += liveBytes - before;
#endif
        }
#if !defined(VSAN) && !defined(VVG)
    // what a call keeps for good shows as growth between a sixteenth and a quarter of the calls and again from there to the
    // end, also when it is held in a container that doubles; tables made at first use do not
    Mon &ml = mon("memory in use does not grow with the number of calls");
    for (auto &o : ops())
    {
        Kept &k = kept[o.name];
        const double c = (double)k.calls;
        cur(o.name, {-1, c, (double)k.at[0], (double)k.at[1], (double)k.live});
        check(ml, !(k.calls >= 64 && k.at[1] - k.at[0] >= c / 16 && k.live - k.at[1] >= c / 4),
              fmt("%lld bytes are still held after a sixteenth of %lld calls, %lld after a quarter, %lld after all", k.at[0], k.calls, k.at[1], k.live).c_str());
    }
#endif
    note(fmt("outputs observed: %llu words, %llu NaN, %llu infinite", (unsigned long long)floats, (unsigned long long)nans, (unsigned long long)infs));
}
