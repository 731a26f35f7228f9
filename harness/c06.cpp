// C06: published constants: illuminants and gamuts
#include "common.hpp"
using namespace H;
namespace
{
struct Ill { const char *n; const Tristimulus *t; double X, Z; };
struct G { const char *n; const Gamut *g; const char *name; double p[8]; };
} // namespace
void run()
{
    Mon &mi = mon("illuminant tristimulus"), &mg = mon("gamut primaries and white"), &mm = mon("cone matrix and XYZ identity"), &mn = mon("gamut name");
    Cls ci("illuminants", 12), cg("gamuts", 10);
    // ASTM E308 / CIE 15 (D60: ACES TB-2014-004)
    const Ill ill[] = {{"A", &CS::Illuminant_A, 1.09850, 0.35585}, {"B", &CS::Illuminant_B, 0.99072, 0.85223}, {"C", &CS::Illuminant_C, 0.98074, 1.18232},
        {"D50", &CS::Illuminant_D50, 0.96422, 0.82521}, {"D55", &CS::Illuminant_D55, 0.95682, 0.92149}, {"D60", &CS::Illuminant_D60, 0.95265, 1.00883},
        {"D65", &CS::Illuminant_D65, 0.95047, 1.08883}, {"D75", &CS::Illuminant_D75, 0.94972, 1.22638}, {"E", &CS::Illuminant_E, 1, 1},
        {"F2", &CS::Illuminant_F2, 0.99186, 0.67393}, {"F7", &CS::Illuminant_F7, 0.95041, 1.08747}, {"F11", &CS::Illuminant_F11, 1.00962, 0.64350}};
    const G gs[] = {{"AdobeRGB", &CS::AdobeRGB, "AdobeRGB", {0.64, 0.33, 0.21, 0.71, 0.15, 0.06, 0.3127, 0.3290}},
        {"Rec709", &CS::Rec709, "Rec.709", {0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290}},
        {"Rec2020", &CS::Rec2020, "Rec.2020", {0.708, 0.292, 0.17, 0.797, 0.131, 0.046, 0.3127, 0.3290}},
        {"DCI_P3", &CS::DCI_P3, "DCI P3", {0.68, 0.32, 0.265, 0.69, 0.15, 0.06, 0.314, 0.351}},
        {"S_Gamut", &CS::S_Gamut, "S-Gamut", {0.73, 0.28, 0.14, 0.855, 0.10, -0.05, 0.3127, 0.3290}},
        {"S_Gamut3_Cine", &CS::S_Gamut3_Cine, "S-Gamut3.Cine", {0.766, 0.275, 0.225, 0.800, 0.089, -0.087, 0.3127, 0.3290}},
        {"ACEScg", &CS::ACEScg, "ACES cg", {0.713, 0.293, 0.165, 0.830, 0.128, 0.044, 0.32168, 0.33767}},
        {"ACES2065", &CS::ACES2065, "ACES 2065", {0.73470, 0.26530, 0, 1, 0.0001, -0.077, 0.32168, 0.33767}}};
    for (int k = 0; k < 12; k++)
    {
        cur(ill[k].n, {(double)k, ill[k].X, ill[k].Z});
        ci();
        note(fmt("illuminant %s = (%.6f, %.6f, %.6f)", ill[k].n, (*ill[k].t)[0], (*ill[k].t)[1], (*ill[k].t)[2]));
        near(mi, (*ill[k].t)[0], D(ill[k].X), "X"); near(mi, (*ill[k].t)[1], D(1, 1), "Y"); near(mi, (*ill[k].t)[2], D(ill[k].Z), "Z");
    }
    for (int k = 0; k < 8; k++)
    {
        const double *p = gs[k].p;
        cur(gs[k].n, {(double)k, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]});
        cg();
        const Gamut &g = *gs[k].g;
        check(mn, strcmp(g.name(), gs[k].name) == 0, "name");
        for (int j = 0; j < 3; j++)
        {
            const Tristimulus e = g.toXYZ(Tristimulus(j == 0, j == 1, j == 2));
            double s = (double)e[0] + e[1] + e[2];
            near(mg, e[0] / s, D(p[2 * j], 1), "primary x", 20); near(mg, e[1] / s, D(p[2 * j + 1], 1), "primary y", 20);
        }
        const Tristimulus w = g.toXYZ(Tristimulus(1.f));
        near(mg, w[0], D(p[6] / p[7], 1), "white X", 40); near(mg, w[1], D(1, 1), "white Y", 40); near(mg, w[2], D((1 - p[6] - p[7]) / p[7], 1), "white Z", 40);
        const Tristimulus b = g.fromXYZ(Tristimulus((float)(p[6] / p[7]), 1.f, (float)((1 - p[6] - p[7]) / p[7])));
        for (int i = 0; i < 3; i++) near(mg, b[i], D(1, 4), "white is RGB (1,1,1)", 40);
    }
    const double L[9] = {0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296};
    cur("LMS", {8, L[0], L[1], L[2], L[3], L[4], L[5], L[6], L[7], L[8]});
    cg();
    for (int i = 0; i < 9; i++) near(mm, CS::LMS.fromXYZ()[i], D(L[i]), "Bradford cone matrix");
    const Matrix3 I = CS::LMS.toXYZ().mul(CS::LMS.fromXYZ());
    for (int i = 0; i < 9; i++) near(mm, I[i], D(i % 4 == 0, 3), "LMS inverse");
    cur("XYZ", {9, 1, 0});
    cg();
    for (int i = 0; i < 9; i++) { same(mm, CS::XYZ.fromXYZ()[i], i % 4 == 0, "XYZ is the identity"); same(mm, CS::XYZ.toXYZ()[i], i % 4 == 0, "XYZ is the identity"); }
    check(mn, strcmp(CS::LMS.name(), "LMS") == 0 && strcmp(CS::XYZ.name(), "XYZ") == 0, "name");
}
