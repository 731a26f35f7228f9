// C25: constant expressions, static initialisation and several translation units give the results of run time
#include "ops.hpp"
#define CT
#include "c25_ops.hpp"
int ct_count(int op);
uint32_t ct_arg(int op, int i);
const float *ct_result(int op, int i, int *n);
int tu_early(int k, uint64_t *h);
uint64_t tu_now(uint64_t seed, int k);
using namespace H;
namespace
{
O call(int op, G g)
{
    switch (op)
    {
    case 0: return op0(g); case 1: return op1(g); case 2: return op2(g); case 3: return op3(g); case 4: return op4(g); case 5: return op5(g); case 6: return op6(g);
    case 7: return op7(g); case 8: return op8(g); case 9: return op9(g); case 10: return op10(g); case 11: return op11(g); case 12: return op12(g); case 13: return op13(g);
    case 14: return op14(g); case 15: return op15(g); case 16: return op16(g); case 17: return op17(g); case 18: return op18(g); case 19: return op19(g); default: return op20(g);
    }
}
// once more, with the number of calls to make before main() in the environment
void again(int n, uint64_t seed)
{
    setenv("C25_EARLY", fmt("%d", n).c_str(), 1);
    setenv("C25_SEED", fmt("%" PRIu64, seed).c_str(), 1);
    FILE *f = fopen("/proc/self/cmdline", "rb");
    static char buf[65536];
    size_t k = f ? fread(buf, 1, sizeof buf - 1, f) : 0;
    if (f) fclose(f);
    std::vector<char *> av;
    for (size_t i = 0; i < k; i += strlen(buf + i) + 1) av.push_back(buf + i);
    av.push_back(nullptr);
    struct itimerval it = {};
    setitimer(ITIMER_PROF, &it, nullptr);
    execv("/proc/self/exe", av.data());
    _exit(9);
}
} // namespace
void run()
{
    Mon &mc = mon("constant expression and run time agree"), &mk = mon("the constant expression is finite"), &me = mon("before main and after agree, bit for bit"), &mt = mon("translation units agree, bit for bit");
    const uint64_t seed = rng("c25").u64() | 1;
    const int want = (int)std::min<long>(20000, N(2000));
    if (!getenv("C25_EARLY")) again(want, seed);
    Cls ccons("constant expressions", 1000), cearly("calls before main", 500), ctu("calls in two translation units", 500);
    for (int op = 0; op < OPS; op++)
    {
        need(OPNAME[op], 5);
        for (int i = 0; i < ct_count(op); i++)
        {
            volatile uint32_t s = ct_arg(op, i);
            cur(OPNAME[op], {(double)s, (double)i});
            const O o = call(op, G{s});
            int n = 0;
            const float *c = ct_result(op, i, &n);
            double mag = 0;
            for (int j = 0; j < n; j++) mag = std::max(mag, (double)std::fabs(c[j]));
            if (!check(mc, n == o.n, "number of results")) continue;
            cls(OPNAME[op]);
            ccons();
            for (int j = 0; j < n; j++)
            {
                check(mk, std::isfinite(c[j]), "not finite");
                // the compiler rounds powf correctly, the library almost: otherwise the same arithmetic
                near(mc, o.v[j], D(c[j], 0), fmt("result %d", j).c_str(), 0, 4 * EPS * std::fabs(c[j]) + (op == 9 ? 2e-6 * mag : 1e-7 * EPS * mag));
            }
        }
    }
    auto &t = ops();
    for (int k = 0; k < want; k++)
    {
        const OpDef &d = t[(size_t)k % t.size()];
        cur(d.name, {(double)(seed >> 12), (double)k});
        Ctx c(seed + 7919ull * (uint64_t)k, 0);
        d.f(c);
        uint64_t h = 0x1234567 + c.out.size(), e = 0;
        for (uint32_t u : c.out) { h = (h ^ u) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
        if (!check(me, tu_early(k, &e), "the call before main was not made")) continue;
        cearly();
        check(me, e == h, "the call made before main gave another result");
        ctu();
        check(mt, tu_now(seed, k) == h, "the same call in another translation unit gave another result");
    }
}
