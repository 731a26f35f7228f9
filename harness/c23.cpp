// C23: every function is a pure function of its arguments: results do not depend on what was called before, on other
// threads, on stack, heap or errno contents; nothing is printed; the floating point environment is left alone
#include "ops.hpp"
#include <dirent.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <xmmintrin.h>
#include <atomic>
using namespace H;
namespace
{
struct Ent { const OpDef *op; uint64_t a, b; uint32_t at; int mode; uint64_t jit; };
struct Plan { std::vector<Ent> e; };
uint64_t hashOut(const std::vector<uint32_t> &o)
{
    uint64_t h = 0x1234567 + o.size();
    for (uint32_t u : o) { h = (h ^ u) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    return h | 1;
}
uint64_t eval(const Ent &e)
{
    Ctx c(Rng(e.a, e.b, e.at), e.mode);
    c.r.jit = e.jit;
    e.op->f(c);
    return hashOut(c.out);
}
__attribute__((noinline)) void paint(int byte)
{
    volatile char buf[12000];
    for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char)byte;
}
struct Th { const Plan *p; uint64_t *res; std::vector<int> order; std::atomic<int> *go; int n; };
void *thread(void *v)
{
    Th *t = (Th *)v;
    t->go->fetch_add(1);
    while (t->go->load() < t->n) sched_yield();
    for (int i : t->order) { t->res[i] = eval(t->p->e[i]); if ((i & 15) == 0) sched_yield(); }
    return nullptr;
}
std::vector<int> order(const Plan &p, int kind, Rng &r)
{
    int n = (int)p.e.size();
    std::vector<int> o(n);
    for (int i = 0; i < n; i++) o[i] = kind == 1 ? n - 1 - i : i;
    if (kind >= 2) for (int i = n - 1; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]);
    return o;
}
// how a child perturbs its surroundings
const char *KIND[] = {"in order", "in reverse order", "shuffled", "shuffled, every call twice", "stack and heap filled with ff", "stack and heap filled with 3f", "errno and exception flags set", "six threads at once", "six threads at once, same order", "each call in a fresh process", "thousands of calls of one function"};
enum { NK = 11 };
void runThreads(const Plan &p, uint64_t *res, int nth, Rng &r, bool same_order)
{
    std::vector<Th> t(nth);
    std::vector<pthread_t> id(nth);
    std::atomic<int> go{0};
    for (int i = 0; i < nth; i++) { t[i] = Th{&p, res + (size_t)i * p.e.size(), order(p, same_order ? 0 : (i < 2 ? 0 : 2), r), &go, nth}; }
    for (int i = 0; i < nth; i++) pthread_create(&id[i], nullptr, thread, &t[i]);
    for (int i = 0; i < nth; i++) pthread_join(id[i], nullptr);
}
enum { NTH = 6 };
int longRun = -1;
void child(int kind, const Plan &p, uint64_t *res, Rng r)
{
    int n = (int)p.e.size();
    if (kind == 7 || kind == 8) { runThreads(p, res, NTH, r, kind == 8); return; }
    if (kind == 4 || kind == 5) mallopt(M_PERTURB, kind == 4 ? 0xff : 0x3f);
    if (kind == 10)
    {
        // a long history of one operation at a time: results may not drift with the number of calls
        for (int lo = 0, hi, g = 0; lo < n; lo = hi, g++)
        {
            for (hi = lo; hi < n && p.e[hi].op == p.e[lo].op; hi++) res[hi] = eval(p.e[hi]);
            struct timespec t0, t1;
            clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
            double budget = longRun < 0 ? 0.02 : (g % 4 == longRun ? 0.5 : 0.0);
            for (long k = 0; budget > 0 && k < 140000; k++)
            {
                int i = lo + (int)r.below(hi - lo);
                uint64_t h = eval(p.e[i]);
                if (h != res[i]) { res[i] = h ^ res[i] ^ 2; break; }
                if ((k & 15) == 0) { clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1); if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > budget) break; }
            }
        }
        return;
    }
    std::vector<int> o = order(p, kind, r);
    for (int i : o)
    {
        if (kind == 4) paint(0xff);
        if (kind == 5) paint(0x3f);
        if (kind == 6) { errno = 33; feraiseexcept(FE_INVALID | FE_OVERFLOW | FE_DIVBYZERO | FE_UNDERFLOW | FE_INEXACT); }
        if (kind == 9)
        {
            if (i % 5) { res[i] = 0; continue; }
            pid_t q = fork();
            if (q == 0) { res[i] = eval(p.e[i]); _exit(0); }
            int st;
            waitpid(q, &st, 0);
            continue;
        }
        uint64_t h = eval(p.e[i]);
        if (kind == 3) { uint64_t h2 = eval(p.e[i]); if (h2 != h) h = h2 ^ h ^ 2; }
        res[i] = h;
    }
}
// what a pure function cannot change: open descriptors, files in the working directory, the locale, the environment
uint64_t processState()
{
    uint64_t h = 99;
    auto mix = [&](uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
    for (int f = 0; f < 64; f++) mix((uint64_t)(fcntl(f, F_GETFD) + 2));
    if (DIR *d = opendir(".")) { while (readdir(d)) mix(7); closedir(d); }
    for (const char *q = setlocale(LC_ALL, nullptr); q && *q; q++) mix((uint64_t)*q);
    for (char **e = environ; e && *e; e++) for (const char *q = *e; *q; q++) mix((uint64_t)*q);
    char b[512];
    if (getcwd(b, sizeof b)) for (char *q = b; *q; q++) mix((uint64_t)*q);
    return h;
}
} // namespace
void run()
{
    Mon &md = mon("same arguments, same bits"), &mo = mon("nothing is printed"), &mf = mon("floating point control is left alone"), &mt = mon("same bits in every thread"), &mp = mon("no file, descriptor, locale, environment or rand() state is touched");
    Rng r = rng("c23");
    for (auto &o : ops()) need(o.name, 10);
#ifdef VTSAN
    long rounds = N(6);
#else
    for (const char *k : KIND) need(k, 1);
    long rounds = N(10);
#endif
    srand(4711);
    const int rand0 = rand();
    for (long round = 0; round < rounds; round++)
    {
        longRun = round ? -1 : opt.shard % 4;
        Plan p;
        for (auto &o : ops())
        {
            bool heavy = !strcmp(o.name, "Corrector chart") || !strcmp(o.name, "Macbeth reference") || !strcmp(o.name, "Corrector");
            for (int fam = 0; fam < (heavy ? 1 : 3); fam++)
            {
                uint64_t shared = r.u64();
                int mode = r.below(8) == 0 ? 2 : r.below(4) == 0;
                uint32_t at = 1 + r.below(14);
                const uint32_t share = r.below(3); // the first arguments, the last arguments, or all of them almost
                const uint64_t rest = r.u64();
                for (int k = 0; k < 6; k++) { cur(o.name, {(double)(shared >> 40), (double)at, (double)mode, (double)(r.s[0] >> 40), (double)k}); p.e.push_back(share == 0 ? Ent{&o, shared, r.u64(), at, mode, 0} : (share == 1 ? Ent{&o, r.u64(), shared, at, mode, 0} : Ent{&o, shared, rest, at, mode, k ? r.u64() | 1 : 0})); cls(o.name); }
            }
        }
        int n = (int)p.e.size();
#ifdef VTSAN
        std::vector<uint64_t> res((size_t)n * NTH);
        cur("threads", {(double)round, (double)n});
        runThreads(p, res.data(), NTH, r, round & 1);
        evals_ += (uint64_t)n * NTH;
        for (int t = 1; t < NTH; t++) for (int i = 0; i < n; i++) { mt.checks++; if (res[(size_t)t * n + i] != res[i]) { cur(p.e[i].op->name, {(double)i}); fail(mt, "threads disagree"); } }
        continue;
#else
        size_t words = (size_t)n * (NK + 2 * NTH);
        uint64_t *res = (uint64_t *)mmap(nullptr, words * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto at = [&](int k) { return res + (size_t)n * (k < 7 ? k : (k == 7 ? 7 : (k == 8 ? 7 + NTH : 7 + 2 * NTH))); };
        for (int k = 0; k < NK; k++)
        {
            cur(KIND[k], {(double)round, (double)n, 2.0 + k});
            cls(KIND[k]);
            std::string fo = opt.scratch + "/stdout", fe = opt.scratch + "/stderr";
            Rng cr(r.u64());
            fflush(stdout);
            fflush(stderr);
            pid_t pid = fork();
            if (pid == 0)
            {
                struct itimerval off = {};
                setitimer(ITIMER_PROF, &off, nullptr);
                alarm(240);
                int a = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), b = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                if (a < 0 || b < 0) _exit(40);
                dup2(a, 1);
                dup2(b, 2);
#if !defined(VSAN)
                for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGTRAP}) signal(s, SIG_DFL);
#else
                signal(SIGABRT, SIG_DFL);
                __sanitizer_set_death_callback(nullptr);
#endif
                std::string cw = opt.scratch + "/cwd";
                mkdir(cw.c_str(), 0700);
                if (chdir(cw.c_str())) _exit(40);
                srand(4711);
                const uint64_t st0 = processState();
                unsigned csr = _mm_getcsr() & 0xffc0;
                int rnd = fegetround();
                child(k, p, at(k), cr);
                fflush(stdout);
                fflush(stderr);
                _exit((_mm_getcsr() & 0xffc0) != csr || fegetround() != rnd ? 41 : (processState() != st0 || rand() != rand0 ? 42 : 0));
            }
            int st = 0;
            waitpid(pid, &st, 0);
            evals_ += (uint64_t)n * (k == 7 || k == 8 ? NTH : (k == 3 ? 2 : 1));
            auto text = [&](const std::string &f) { std::string s; FILE *h = fopen(f.c_str(), "rb"); if (h) { char b[600]; size_t q = fread(b, 1, 600, h); s.assign(b, q); fclose(h); } return s; };
            std::string so = text(fo), se = text(fe);
            mf.checks++;
            mp.checks++;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 42) fail(mp, "process state changed");
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 41) fail(mf, "rounding or denormal control changed");
            else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL)) { report("held"); _exit(77); } if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { violations().push_back("[hang] a child process did not end within 240 s"); report("hang"); _exit(1); } fail(md, fmt("child ended with status %x: %s", st, se.c_str())); }
            else { check(mo, so.empty(), ("written to stdout: " + so).c_str()); check(mo, se.empty(), ("written to stderr: " + se).c_str()); }
        }
        if (violations().empty())
            for (int k = 1; k < NK; k++)
                for (int t = 0; t < (k == 7 || k == 8 ? NTH : 1); t++)
                    for (int i = 0; i < n; i++)
                    {
                        uint64_t a = at(0)[i], b = at(k)[(size_t)t * n + i];
                        if (k == 9 && i % 5) continue;
                        (k == 7 || k == 8 ? mt : md).checks++;
                        if (a != b) { Ctx c(Rng(p.e[i].a, p.e[i].b, p.e[i].at), p.e[i].mode); cur(p.e[i].op->name, {(double)i, (double)p.e[i].mode, (double)round}); fail(k == 7 || k == 8 ? mt : md, std::string("result differs between '") + KIND[0] + "' and '" + KIND[k] + "'"); }
                    }
        munmap(res, words * 8);
#endif
    }
}
