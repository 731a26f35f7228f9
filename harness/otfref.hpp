// The published transfer curves in double, with a bound of the single-precision error.
#pragma once
#include "common.hpp"
namespace H
{
inline const OTF::TYPE TYPES[] = {OTF::LINEAR, OTF::GAMMA, OTF::SRGB, OTF::BT709, OTF::ST2084, OTF::SLOG, OTF::SLOG2, OTF::SLOG3, OTF::HLG};
inline const char *TNAME[] = {"LINEAR", "GAMMA", "SRGB", "BT709", "ST2084", "SLOG", "SLOG2", "SLOG3", "HLG"};

namespace pq
{
constexpr double m1 = 2610.0 / 16384, m2 = 2523.0 / 32, c1 = 3424.0 / 4096, c2 = 2413.0 / 128, c3 = 2392.0 / 128;
inline double enc(double C)
{
    if (C <= 0) return 0;
    if (C >= 100) return 1;
    double L = std::pow(C / 100, m1);
    return std::pow((c1 + c2 * L) / (1 + c3 * L), m2);
}
inline double dec(double p)
{
    if (p <= 0) return 0;
    double n = std::pow(p, 1 / m2), L = std::max(n - c1, 0.0) / (c2 - c3 * n);
    return 100 * std::pow(L, 1 / m1);
}
} // namespace pq
// a PQ code value carries this much single-precision noise (absolute, codes 0..1)
constexpr double PQ_NOISE = 6e-5;

struct Curve
{
    // reference encode (scene -> code) and decode (code -> scene), exact mathematics
    double (*enc)(double, double);
    double (*dec)(double, double);
    float slo, shi; // scene domain on which the pair is inverse
    float clo, chi; // code domain on which the pair is inverse
    double cabs, crel; // noise of a code value computed in float
    double sabs, srel; // noise of a scene value computed in float, beyond that of the code
};
inline double l10(double x) { return std::log10(x); }
inline const Curve &curve(int t)
{
    static const Curve C[] = {
        // LINEAR
        {[](double x, double) { return x; }, [](double y, double) { return y; }, -1e30f, 1e30f, -1e30f, 1e30f, 0, 0, 0, 0},
        // GAMMA
        {[](double x, double g) { return x <= 0 ? 0 : std::pow(x, 1 / g); }, [](double y, double g) { return y <= 0 ? 0 : std::pow(y, g); }, 0, 100, 0, 100, 0, 1e-6, 0, 5e-6},
        // SRGB
        {[](double x, double) { return x < 0 ? 0 : x > 1 ? 1 : x < 0.0031308 ? 12.92 * x : 1.055 * std::pow(x, 1 / 2.4) - 0.055; },
            [](double y, double) { return y < 0 ? 0 : y > 1 ? 1 : y < 0.04045 ? y / 12.92 : std::pow((y + 0.055) / 1.055, 2.4); }, 0, 1, 0, 1, 5e-7, 5e-7, 0, 2e-6},
        // BT709
        {[](double x, double) { return x < 0 ? 0 : x > 1 ? 1 : x < 0.018 ? 4.5 * x : 1.099 * std::pow(x, 0.45) - 0.099; },
            [](double y, double) { return y < 0 ? 0 : y > 1 ? 1 : y < 0.081 ? y / 4.5 : std::pow((y + 0.099) / 1.099, 1 / 0.45); }, 0, 1, 0, 1, 5e-7, 5e-7, 0, 2e-6},
        // ST2084
        {[](double x, double) { return pq::enc(x); }, [](double y, double) { return pq::dec(y); }, 0, 100, 0, 1, PQ_NOISE, 0, 0, 1e-6},
        // SLOG
        {[](double x, double) { double c = x < 0 ? 0 : x > 10 ? 10 : x; return 0.432699 * l10(c + 0.037584) + 0.616596 + 0.03; },
            [](double y, double) { return std::pow(10.0, (y - 0.616596 - 0.03) / 0.432699) - 0.037584; }, 0, 10, 0.030001f, 1.0f, 6e-7, 6e-7, 2e-8, 2e-6},
        // SLOG2 (10-bit code over 1024, legal range)
        {[](double x, double) { double y = x < 0 ? x * 3.53881278538813 + 0.030001222851889303 : 0.432699 * l10(155.0 * x / 219 + 0.037584) + 0.616596 + 0.03; return (y * 876 + 64) / 1024; },
            [](double y, double) { double c = (y * 1024 - 64) / 876; double s = c >= 0.030001222851889303 ? 219.0 * (std::pow(10.0, (c - 0.616596 - 0.03) / 0.432699) - 0.037584) / 155.0 : (c - 0.030001222851889303) / 3.53881278538813; return s > 0 ? s : 0; },
            0, 14.13f, 0.0882f, 0.99f, 6e-7, 6e-7, 3e-8, 2e-6},
        // SLOG3
        {[](double x, double) { return (x >= 0.01125 ? 420 + l10((x + 0.01) / 0.19) * 261.5 : x * (171.2102946929 - 95) / 0.01125 + 95) / 1023; },
            [](double y, double) { return y * 1023 >= 171.2102946929 ? std::pow(10.0, (y * 1023 - 420) / 261.5) * 0.19 - 0.01 : (y * 1023 - 95) * 0.01125 / (171.2102946929 - 95); },
            -0.014f, 38.f, 0.f, 1.f, 6e-7, 6e-7, 2e-8, 3e-6},
        // HLG (scene 0..12)
        {[](double x, double) { return x < 0 ? 0 : x < 1 ? 0.5 * std::sqrt(x) : 0.17883277 * std::log(x - 0.28466892) + 0.55991073; },
            [](double y, double) { return y < 0 ? 0 : y <= 0.5 ? 4 * y * y : std::exp((y - 0.55991073) / 0.17883277) + 0.28466892; }, 0, 12, 0, 1.0f, 5e-7, 5e-7, 0, 3e-6},
    };
    return C[t];
}
inline double cnoise(int t, double code, double g)
{
    const Curve &c = curve(t);
    double k = t == 1 ? 2 + std::fabs(std::log(std::max(code, 1e-30))) : 1;
    (void)g;
    return c.cabs + c.crel * k * std::fabs(code) + (t ? FLT_MIN : 0);
}
// the single-channel functions of each type, by name
inline float enc1(int t, float x, float g)
{
    switch (t)
    {
    case 1: return OTF::gamma(x, g);
    case 2: return OTF::Y_to_sRGB(x);
    case 3: return OTF::Y_to_BT709(x);
    case 4: return OTF::Y_to_ST2084(x);
    case 5: return OTF::Y_to_SLog(x);
    case 6: return OTF::Y_to_SLog2(x);
    case 7: return OTF::Y_to_SLog3(x);
    case 8: return OTF::Y_to_HLG(x);
    default: return x;
    }
}
inline float dec1(int t, float y, float g)
{
    switch (t)
    {
    case 1: return OTF::degamma(y, g);
    case 2: return OTF::sRGB_to_Y(y);
    case 3: return OTF::BT709_to_Y(y);
    case 4: return OTF::ST2084_to_Y(y);
    case 5: return OTF::SLog_to_Y(y);
    case 6: return OTF::SLog2_to_Y(y);
    case 7: return OTF::SLog3_to_Y(y);
    case 8: return OTF::HLG_to_Y(y);
    default: return y;
    }
}
inline float gengamma(Rng &r) { return r.below(3) ? r.f(0.4, 4) : r.pick<float>({1.f, 2.2f, 2.4f, 2.6f, 1.8f, 0.5f, 2.f, 0.45454547f}); }
inline float genscene(Rng &r, int t)
{
    const Curve &c = curve(t);
    if (t == 0) return r.sgn() * r.logf_(1e-6, 1e6);
    return inrange(r, c.slo, c.shi, {0.f, 0.18f, 0.9f, 1.f, 0.0031308f, 0.018f, 0.01125f, 0.5f, 10.f, 1e-4f});
}
inline float gencode(Rng &r, int t)
{
    const Curve &c = curve(t);
    if (t == 0) return r.sgn() * r.logf_(1e-6, 1e6);
    return inrange(r, c.clo, c.chi, {0.f, 0.04045f, 0.081f, 0.5f, 0.16736099f, 0.1f, 0.9f});
}
} // namespace H
