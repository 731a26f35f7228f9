#pragma once
#include "otfref.hpp"
namespace H
{
inline DM okm1()
{
    const double m[9] = {0.8189330101, 0.3618667424, -0.1288597137, 0.0329845436, 0.9293118715, 0.0361456387, 0.0482003018, 0.2643662691, 0.6338517070};
    DM d; for (int i = 0; i < 9; i++) d.a[i] = D(m[i]); return d;
}
inline DM okm2()
{
    const double m[9] = {0.2104542553, 0.7936177850, -0.0040720468, 1.9779984951, -2.4285922050, 0.4505937099, 0.0259040371, 0.7827717662, -0.8086757660};
    DM d; for (int i = 0; i < 9; i++) d.a[i] = D(m[i]); return d;
}
inline DV oklab(DV x)
{
    static const DM a = okm1(), b = okm2();
    DV l = dapply(a, x);
    for (auto &z : l.a) z = dmono(z, [](double t) { return std::cbrt(t); }, 3);
    return dapply(b, l);
}
inline DV unoklab(DV x)
{
    static const DM a = dinv(okm1()), b = dinv(okm2());
    DV l = dapply(b, x);
    for (auto &z : l.a) z = dmono(z, [](double t) { return t * t * t; }, 4);
    return dapply(a, l);
}
// ICtCp of the Dolby white paper; PQ codes carry PQ_NOISE/2 of single-precision noise
inline DM hpe()
{
    const double m[9] = {0.3592, 0.6976, -0.0358, -0.1922, 1.1004, 0.0755, 0.0070, 0.0749, 0.8434};
    DM d; for (int i = 0; i < 9; i++) d.a[i] = D(m[i]); return d;
}
inline DM ictm()
{
    const double m[9] = {0.5, 0.5, 0, 6610.0 / 4096, -13613.0 / 4096, 7003.0 / 4096, 17933.0 / 4096, -17390.0 / 4096, -543.0 / 4096};
    DM d; for (int i = 0; i < 9; i++) d.a[i] = D(m[i]); return d;
}
constexpr double PQE = PQ_NOISE * 0.4 / (K0 * EPS);
inline DV ictcp(DV x)
{
    static const DM a = hpe(), b = ictm();
    DV l = dapply(a, x);
    for (auto &z : l.a) { z = dmono(z, pq::enc); z.e += PQE; }
    return dapply(b, l);
}
inline DV unictcp(DV x)
{
    static const DM a = dinv(hpe()), b = dinv(ictm());
    DV p = dapply(b, x);
    for (auto &z : p.a) { z.e += PQE; z = dmono(z, [](double t) { return pq::dec(std::min(t, 1.002)); }, 4); }
    return dapply(a, p);
}
} // namespace H
