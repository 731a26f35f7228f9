// Shared machinery of the monitors: counters, reference arithmetic with an error bound, workload generators,
// crash / hang capture.  Every harness includes this first; it then includes /repo's header.
#pragma once
#include <cerrno>
#include <cfenv>
#include <cfloat>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

#ifndef FLT_TRUE_MIN
#define FLT_TRUE_MIN 1.40129846432481707092e-45f
#endif
namespace H
{
// ---------------------------------------------------------------- options
struct Opt
{
    uint64_t seed = 1;
    int shard = 0, shards = 1;
    double scale = 1.0; // multiplies every case count
    bool thorough = false;
    std::string out = "/dev/null", data = ".", scratch = ".";
    std::string variant = "rel";
};
inline Opt opt;
inline long N(double n) { double r = n * opt.scale; return r < 1 ? 1 : (long)r; }

// ---------------------------------------------------------------- current case (for crash and hang reports)
struct Cur
{
    const char *op = "startup";
    int n = 0;
    double a[40];
};
inline Cur cur_;
inline volatile uint64_t progress_ = 0;
inline uint64_t hash_ = 0;

// ---------------------------------------------------------------- counters
struct Mon
{
    std::string name;
    uint64_t checks = 0, fails = 0;
};
// header-only map with stable references (std::map lives partly in an uninstrumented library, which the memory
// sanitizer would misread)
template <class V> struct Reg
{
    struct Pair { std::string first; V second; };
    std::vector<std::unique_ptr<Pair>> v;
    V &operator[](const char *k)
    {
        for (auto &p : v) if (p->first.size() == strlen(k) && !memcmp(p->first.data(), k, p->first.size())) return p->second;
        v.emplace_back(new Pair{k, V()});
        return v.back()->second;
    }
};
inline Reg<Mon> &mons() { static Reg<Mon> m; return m; }
inline Reg<uint64_t> &classes() { static Reg<uint64_t> m; return m; }
inline Reg<uint64_t> &required() { static Reg<uint64_t> m; return m; }
inline std::vector<std::string> &violations() { static std::vector<std::string> v; return v; }
inline std::vector<std::string> &samples() { static std::vector<std::string> v; return v; }
inline std::vector<uint8_t> &bitmap() { static std::vector<uint8_t> b(1u << 22); return b; } // 2^25 bits
inline uint64_t evals_ = 0, trivial_ = 0, skipped_ = 0;

inline std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
inline std::string curtext()
{
    std::string r = cur_.op;
    r += "(";
    for (int i = 0; i < cur_.n; i++)
    {
        char b[64];
        snprintf(b, 64, "%s%.9g", i ? ", " : "", cur_.a[i]);
        r += b;
    }
    return r + ")";
}
inline void report(const char *status)
{
    FILE *f = fopen(opt.out.c_str(), "w");
    if (!f) _exit(3);
    fprintf(f, "{\"status\":\"%s\",\"evaluations\":%" PRIu64 ",\"trivial\":%" PRIu64 ",\"skipped\":%" PRIu64 ",\n\"monitors\":{",
        status, evals_, trivial_, skipped_);
    bool first = true;
    for (auto &mp : mons().v)
    {
        fprintf(f, "%s\"%s\":{\"checks\":%" PRIu64 ",\"fails\":%" PRIu64 "}", first ? "" : ",", jesc(mp->first).c_str(), mp->second.checks, mp->second.fails);
        first = false;
    }
    fprintf(f, "},\n\"classes\":{");
    first = true;
    for (auto &mp : classes().v) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(mp->first).c_str(), mp->second); first = false; }
    fprintf(f, "},\n\"required\":{");
    first = true;
    for (auto &mp : required().v) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(mp->first).c_str(), mp->second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    first = true;
    for (auto &s : samples()) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\n\"violations\":[");
    first = true;
    for (auto &s : violations()) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\n\"last\":\"%s\"}\n", jesc(curtext()).c_str());
    fclose(f);
    FILE *b = fopen((opt.out + ".bits").c_str(), "wb");
    if (b) { fwrite(bitmap().data(), 1, bitmap().size(), b); fclose(b); }
}
inline void fail(Mon &m, const std::string &detail)
{
    m.fails++;
    if (violations().size() < 8 && m.fails <= 3) violations().push_back("[" + m.name + "] " + curtext() + ": " + detail);
    if (violations().size() >= 8) { report("violated"); _exit(1); }
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
// crash / hang capture --------------------------------------------------------------------------------------------
inline void crash(int sig)
{
    static volatile int once = 0;
    if (once++) _exit(70);
    signal(SIGALRM, SIG_DFL);
    alarm(15); // the heap may be locked or broken: then the process just ends, and the driver reports it
    char why[64];
    snprintf(why, 64, "signal %d", sig);
    violations().push_back(std::string("[crash] ") + curtext() + ": " + why);
    report("crashed");
    _exit(1);
}
inline uint64_t hang_last_ = 0;
inline int hang_ticks_ = 0;
inline void tick(int)
{
    if (progress_ == hang_last_)
    {
        if (++hang_ticks_ >= 6) // six times five CPU seconds in a single call
        {
            violations().push_back("[hang] " + curtext() + ": no progress for 30 CPU seconds");
            report("hang");
            _exit(1);
        }
    }
    else
    {
        hang_ticks_ = 0;
        hang_last_ = progress_;
    }
}
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(VSAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
inline void death()
{
    signal(SIGALRM, SIG_DFL);
    alarm(15);
    violations().push_back("[sanitizer] " + curtext() + ": sanitizer report");
    report("sanitizer");
}
inline void install()
{
    static char *alt = (char *)malloc(1 << 18);
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = 1 << 18;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_flags = SA_ONSTACK;
#if defined(VTSAN)
    // no handlers: a report holds the runtime's locks; the driver reads the log of the ended process
#elif defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(VSAN)
    __sanitizer_set_death_callback(death);
    sa.sa_handler = crash;
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
#else
    sa.sa_handler = crash;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
    struct rlimit rl = {6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &rl);
#endif
    sa.sa_handler = tick;
    sa.sa_flags = SA_RESTART | SA_ONSTACK;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it = {{5, 0}, {5, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
}

// ---------------------------------------------------------------- random
struct Rng
{
    uint64_t s[4];
    static uint64_t sm(uint64_t &x)
    {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t other[4];
    uint32_t swap_at = 0; // after this many draws continue with another stream (cases sharing a prefix or a suffix)
    uint64_t jit = 0; // when set, half of the real numbers come out slightly different (cases that almost agree)
    double jitter(double x, double lo, double hi)
    {
        if (!jit) return x;
        uint64_t h = sm(jit);
        if (!jit) jit = 1;
        if (h & 1) return x;
        double y = x * (1 + (h & 2 ? 1 : -1) * std::exp2(-24 + 17 * ((h >> 11) * 0x1p-53)));
        return y >= lo && y <= hi ? y : x;
    }
    explicit Rng(uint64_t x) { for (auto &v : s) v = sm(x); }
    Rng(uint64_t first, uint64_t then, uint32_t at) : Rng(then) { memcpy(other, s, sizeof s); for (auto &v : s) v = sm(first); swap_at = at; }
    uint64_t u64()
    {
        if (swap_at && --swap_at == 0) memcpy(s, other, sizeof s);
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint32_t below(uint32_t n) { return (uint32_t)(((u64() >> 32) * n) >> 32); }
    bool chance(double p) { return d() < p; }
    double d() { return (u64() >> 11) * 0x1p-53; }
    double d(double lo, double hi) { return lo + (hi - lo) * d(); }
    int burst = 0; // the next real numbers are all round
    bool round_(uint64_t h)
    {
        if ((h & 1023) == 32) burst = 4 + (h >> 10 & 31);
        if (burst > 0) { burst--; return true; }
        return (h & 31) == 0;
    }
    // uniform; now and then a round number, a short decimal, a binary fraction or an end of the range
    float f(double lo, double hi)
    {
        uint64_t h = u64();
        double x = lo + (hi - lo) * ((h >> 11) * 0x1p-53);
        if (round_(h)) x = tidy(x, lo, hi);
        return (float)jitter(x, lo, hi);
    }
    float logf_(double lo, double hi)
    {
        uint64_t h = u64();
        double x = std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * ((h >> 11) * 0x1p-53));
        if (round_(h))
        {
            double y = h & 128 ? std::exp2(std::round(std::log2(x))) : std::pow(10.0, std::round(std::log10(x)));
            if (h & 256) { double q = std::pow(10.0, std::floor(std::log10(x)) - (h & 512 ? 1 : 0)); y = std::round(x / q) * q; } // one or two digits
            if (y >= lo && y <= hi) x = y;
        }
        return (float)jitter(x, lo, hi);
    }
    double tidy(double x, double lo, double hi)
    {
        static const double N[] = {0, 1, 0.5, 0.25, 0.75, 0.1, 0.2, 0.18, 0.9, 2, 3, 4, 5, 10, 50, 100, 255, 360, 180, 90, 1.0 / 3, 2.0 / 3, 0.333, 1000};
        double y = x;
        switch (below(10))
        {
        case 7: { static const double Q[] = {255, 1023, 1024, 4095, 65535, 20, 50, 64, 16, 32, 3, 6, 12, 1000}; double q = Q[below(14)]; y = std::round(x * q) / q; break; }
        case 8: { static const double Q[] = {5, 50, 100, 500, 1000, 60, 30, 45, 90}; double q = Q[below(9)]; y = std::round(x / q) * q; break; }
        case 0: y = std::round(x); break;
        case 1: y = std::round(x * 10) / 10; break;
        case 2: y = std::round(x * 100) / 100; break;
        case 3: y = std::round(x * 8) / 8; break;
        case 4: y = below(2) ? hi : lo; break;
        case 5: y = std::round(x / 10) * 10; break;
        default: y = N[below(24)] * (below(4) ? 1 : -1);
        }
        return y >= lo && y <= hi ? y : x;
    }
    float sgn() { return (u64() & 1) ? 1.f : -1.f; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((uint32_t)l.size())); }
};
inline Rng rng(const char *stream)
{
    uint64_t h = 1469598103934665603ull ^ (opt.seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)(opt.shard + 1) * 0xD1B54A32D192ED03ull);
    for (const char *p = stream; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    for (const char *p = opt.variant.c_str(); *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    return Rng(h);
}
inline float fbits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline uint32_t ubits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float ulps(float x, int k)
{
    for (; k > 0; k--) x = std::nextafterf(x, INFINITY);
    for (; k < 0; k++) x = std::nextafterf(x, -INFINITY);
    return x;
}
inline float anyfinite(Rng &r)
{
    for (;;) { float f = fbits((uint32_t)r.u64()); if (std::isfinite(f)) return f; }
}
// a value of [lo,hi]: uniform, log-uniform towards lo, the ends and given specials, and a few ulps around them
inline float inrange(Rng &r, float lo, float hi, std::initializer_list<float> spec = {})
{
    auto clampf = [&](float x) { return x < lo ? lo : (x > hi ? hi : x); };
    switch (r.below(8))
    {
    case 0: return clampf(lo + (float)((double)(hi - lo) * r.logf_(1e-9, 1)));
    case 1: return clampf(hi - (float)((double)(hi - lo) * r.logf_(1e-7, 1)));
    case 2: { float e = r.below(2) ? hi : lo; return clampf(ulps(e, (int)r.below(9) - 4)); }
    case 3: case 4:
        if (spec.size()) { float e = *(spec.begin() + r.below((uint32_t)spec.size()));
            if (r.below(2)) return clampf(ulps(e, (int)r.below(17) - 8));
            return clampf(e + r.sgn() * (float)((hi - lo) * r.logf_(1e-7, 0.05))); }
        [[fallthrough]];
    default: return clampf(r.f(lo, hi));
    }
}

// ---------------------------------------------------------------- reference arithmetic
// value in double and a first-order bound of the float error (in units of FLT_EPSILON) that any reasonable evaluation
// of the same expression may make: every operation adds the magnitude of its operands.
constexpr double EPS = FLT_EPSILON;
struct D
{
    double v = 0, e = 0;
    D() {}
    D(double x) : v(x), e(std::fabs(x)) {}    // a constant: the float literal is rounded
    D(double x, double err) : v(x), e(err) {}
    static D in(float x) { return D((double)x, 0); } // an exact input
};
inline double tinye() { return FLT_MIN; }
inline D operator+(D a, D b) { return D(a.v + b.v, a.e + b.e + std::fabs(a.v) + std::fabs(b.v) + tinye()); }
inline D operator-(D a, D b) { return D(a.v - b.v, a.e + b.e + std::fabs(a.v) + std::fabs(b.v) + tinye()); }
inline D operator-(D a) { return D(-a.v, a.e); }
inline D operator*(D a, D b)
{
    double v = a.v * b.v;
    return D(v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + EPS * a.e * b.e + std::fabs(v) + tinye());
}
inline D operator/(D a, D b)
{
    double v = a.v / b.v, bb = std::fabs(b.v) - EPS * 4 * b.e;
    if (!(bb > 0.5 * std::fabs(b.v))) return D(v, INFINITY);
    return D(v, (a.e + std::fabs(v) * b.e) / bb + 2 * std::fabs(v) + tinye());
}
inline D dfun(D a, double f, double slope) { return D(f, std::fabs(slope) * a.e + 2 * std::fabs(f) + tinye()); }
inline D dsqrt(D a)
{
    double v = std::max(a.v, 0.0), f = std::sqrt(v);
    // sqrt(v +- d) <= f + min(d/(2f)*1.2, sqrt(d))
    double d = EPS * 4 * a.e;
    double w = f > 0 && d < v * 0.5 ? d / (2 * f) * 1.5 : std::sqrt(v + d) ;
    return D(f, w / (4 * EPS) + 2 * f + tinye());
}
inline D dabs(D a) { a.v = std::fabs(a.v); return a; }
inline D dpow(D a, double p)
{
    double f = std::pow(a.v, p);
    // powf with an exponent rounded to float: relative error |p ln a| eps
    return D(f, std::fabs(p * std::pow(a.v, p - 1)) * a.e + std::fabs(f) * (2 + std::fabs(p * std::log(std::max(a.v, 1e-300)))) + tinye());
}
constexpr double K0 = 4; // slack over the first-order bound
// monotone f: the error bound is taken from f at both ends of the K0-widened operand, not from a slope
template <class F> inline D dmono(D a, F f, double rel = 2)
{
    double d = K0 * EPS * a.e, v = f(a.v), w = std::max(std::fabs(f(a.v + d) - v), std::fabs(f(a.v - d) - v));
    if (std::isnan(w)) w = INFINITY;
    return D(v, w / (K0 * EPS) + rel * std::fabs(v) + tinye());
}
struct DM { D a[9]; };
struct DV { D a[3]; };
inline DM dmul(const DM &x, const DM &y)
{
    DM r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
        r.a[i * 3 + j] = x.a[i * 3] * y.a[j] + x.a[i * 3 + 1] * y.a[3 + j] + x.a[i * 3 + 2] * y.a[6 + j];
    return r;
}
inline DV dapply(const DM &m, const DV &v)
{
    DV r;
    for (int i = 0; i < 3; i++) r.a[i] = m.a[i * 3] * v.a[0] + m.a[i * 3 + 1] * v.a[1] + m.a[i * 3 + 2] * v.a[2];
    return r;
}
inline DM dinv(const DM &m)
{
    const D *X = m.a;
    DM c{{X[4] * X[8] - X[5] * X[7], X[2] * X[7] - X[1] * X[8], X[1] * X[5] - X[2] * X[4],
        X[5] * X[6] - X[3] * X[8], X[0] * X[8] - X[2] * X[6], X[2] * X[3] - X[0] * X[5],
        X[3] * X[7] - X[4] * X[6], X[1] * X[6] - X[0] * X[7], X[0] * X[4] - X[1] * X[3]}};
    D det = X[0] * c.a[0] + X[1] * c.a[3] + X[2] * c.a[6];
    for (auto &x : c.a) x = x / det;
    return c;
}
inline DV dv(D a, D b, D c) { return DV{{a, b, c}}; }

inline void cur(const char *op, std::initializer_list<double> a = {})
{
    cur_.op = op;
    cur_.n = 0;
    uint64_t h = (uint64_t)(uintptr_t)op * 0; // keep independent of address
    for (const char *p = op; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    bool nontrivial = false;
    double first = a.size() ? *a.begin() : 0;
    for (double x : a)
    {
        if (cur_.n < 40) cur_.a[cur_.n++] = x;
        uint64_t b;
        memcpy(&b, &x, 8);
        h = (h ^ b) * 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
        if (x != 0 && x != 1) nontrivial = true;
    }
    (void)first;
    progress_ = progress_ + 1;
    evals_++;
    if (!nontrivial && a.size()) { trivial_++; return; }
    h = (h ^ (h >> 32)) * 0xD6E8FEB86659FD93ull;
    h ^= h >> 32;
    uint32_t bit = (uint32_t)h & ((1u << 25) - 1);
    uint8_t &c = bitmap()[bit >> 3];
    if (!(c >> (bit & 7) & 1)) c |= (uint8_t)(1u << (bit & 7));
    if (samples().size() < 12 && (evals_ & (evals_ - 1)) == 0 && evals_ >= 64) samples().push_back(curtext());
}
// append to the current case without counting a new one
inline void also(std::initializer_list<double> a) { for (double x : a) if (cur_.n < 40) cur_.a[cur_.n++] = x; }
inline void note(std::string s) { if (samples().size() < 14) samples().push_back(std::move(s)); }

inline Mon &mon(const char *n) { Mon &m = mons()[n]; if (m.name.empty()) m.name = n; return m; }
inline void cls(const char *n, uint64_t k = 1) { classes()[n] += k; }
inline void need(const char *n, uint64_t k) { required()[n] = k; classes()[n] += 0; }
struct Cls { uint64_t *c; Cls(const char *n, uint64_t req) { need(n, req); c = &classes()[n]; } void operator()() { ++*c; } };

inline bool check(Mon &m, bool ok, const char *what)
{
    m.checks++;
    if (!ok) fail(m, what);
    return ok;
}
inline bool near(Mon &m, double got, D ref, const char *what, double k = K0, double extra = 0)
{
    double tol = k * EPS * ref.e + extra;
    if (!std::isfinite(tol) || std::fabs(ref.v) + tol > 1e37 || ref.e > 1e37) { skipped_++; return true; } // may overflow
    m.checks++;
    if (std::fabs(got - ref.v) <= tol) return true;
    fail(m, fmt("%s: got %.9g, expected %.9g +- %.3g", what, got, ref.v, tol));
    return false;
}
inline bool same(Mon &m, double got, double want, const char *what)
{
    m.checks++;
    if (got == want || (std::isnan(got) && std::isnan(want))) return true;
    fail(m, fmt("%s: got %.9g, expected exactly %.9g", what, got, want));
    return false;
}

struct T3 { D a[3]; };

inline void parse(int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") opt.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--shard") opt.shard = atoi(v.c_str());
        else if (k == "--shards") opt.shards = atoi(v.c_str());
        else if (k == "--scale") opt.scale = atof(v.c_str());
        else if (k == "--tier") opt.thorough = v == "thorough";
        else if (k == "--out") opt.out = v;
        else if (k == "--data") opt.data = v;
        else if (k == "--scratch") opt.scratch = v;
        else if (k == "--variant") opt.variant = v;
    }
}
} // namespace H

#ifndef NO_MAIN
void run(); // each harness

int main(int argc, char **argv)
{
    H::parse(argc, argv);
    H::bitmap();
    H::install();
    run();
    H::cur_.op = "end";
    H::cur_.n = 0;
    bool bad = !H::violations().empty();
    H::report(bad ? "violated" : "held");
    fflush(stdout);
    _exit(bad ? 1 : 0);
}
#endif

#include "colorsystem.hpp"
namespace CS = ColorSystem;
using CS::Matrix3;
using CS::Spectrum;
using CS::Tristimulus;
using CS::Vector3;
using CS::Gamut;
using CS::OTF;
