// C17: the built-in spectral tables
#include "common.hpp"
using namespace H;
void run()
{
    Mon &mt = mon("table entries"), &mo = mon("order and names of the sample sets"), &mv = mon("physical plausibility"), &mw = mon("derived white points"), &mr = mon("Macbeth chart under a light"), &mob = mon("observer holds its table");
    Cls ce("table entries", 133 * 400), cl("chart evaluations", 40), cco("custom observers", 4);
    Rng r = rng("c17");
    std::vector<float> T(133 * 400);
    FILE *f = fopen((opt.data + "/tables.bin").c_str(), "rb");
    if (!f || fread(T.data(), 4, T.size(), f) != T.size()) _exit(3);
    fclose(f);
    auto row = [&](int k, const Spectrum &s, const char *n) {
        for (int i = 0; i < 400; i++)
        {
            double want = T[k * 400 + i];
            cur(n, {(double)k, 380.0 + i, want});
            ce();
            near(mt, s[i], D(want, std::fabs(want)), "table entry", 1);
        }
    };
    const Spectrum *cm[10] = {&CS::CIE1931_X, &CS::CIE1931_Y, &CS::CIE1931_Z, &CS::CIE2012_X, &CS::CIE2012_Y, &CS::CIE2012_Z, &CS::CIE1931_JuddVos_X, &CS::CIE1931_JuddVos_Y, &CS::CIE1931_JuddVos_Z, &CS::CIE_D65};
    const char *nm[10] = {"CIE1931_X", "CIE1931_Y", "CIE1931_Z", "CIE2012_X", "CIE2012_Y", "CIE2012_Z", "JuddVos_X", "JuddVos_Y", "JuddVos_Z", "D65"};
    for (int k = 0; k < 10; k++) row(k, *cm[k], nm[k]);
    same(mo, CS::TM_30_15::sample.size(), 99, "TM-30 sample count");
    same(mo, CS::Macbeth::Patch.size(), 24, "Macbeth patch count");
    for (int k = 0; k < 99; k++) row(10 + k, CS::TM_30_15::sample[k], "CES");
    for (int k = 0; k < 24; k++) row(109 + k, CS::Macbeth::Patch[k], "Macbeth");
    // plausibility, independent of the snapshot
    for (int k = 0; k < 9; k++) for (int i = 0; i < 400; i++) { cur(nm[k], {(double)k, 380.0 + i, 1e3}); check(mv, (*cm[k])[i] >= 0 && (*cm[k])[i] < 2.3, "colour matching value"); }
    for (auto *set : {&CS::TM_30_15::sample[0]}) for (int k = 0; k < 99; k++) for (int i = 0; i < 400; i++) { cur("CES", {(double)k, 380.0 + i, 1e3}); check(mv, set[k][i] >= 0 && set[k][i] <= 1, "reflectance"); }
    for (int k = 0; k < 24; k++) for (int i = 0; i < 400; i++) { cur("Macbeth", {(double)k, 380.0 + i, 1e3}); check(mv, CS::Macbeth::Patch[k][i] >= 0 && CS::Macbeth::Patch[k][i] <= 1, "reflectance"); }
    // D65 through the 2-degree observers
    const CS::Observer *ob[3] = {&CS::CIE1931, &CS::CIE31JV, &CS::CIE2012};
    const int base[3] = {0, 6, 3};
    {
        cur("D65 white", {65, 2});
        const Tristimulus w = CS::CIE1931.fromSpectrum(CS::CIE_D65);
        near(mw, w[0] / w[1], D(0.95047, 0), "X/Y of D65", 0, 1e-3); near(mw, w[2] / w[1], D(1.08883, 0), "Z/Y of D65", 0, 1.5e-3);
    }
    for (int o = 0; o < 3; o++) for (int i = 0; i < 400; i++)
    {
        // the response to one bin tells the table the observer carries
        cur("observer", {(double)o, 380.0 + i, 7});
        std::array<float, 400> a{};
        a[i] = 1;
        const Tristimulus t = ob[o]->fromSpectrum(Spectrum(a));
        for (int k = 0; k < 3; k++)
        {
            double s = 0;
            for (int j = 0; j < 400; j++) s += T[(base[o] + k) * 400 + j];
            double want = T[(base[o] + k) * 400 + i] / s;
            near(mob, t[k], D(want, 0), "response", 0, 5e-5 * want + 1e-43);
        }
    }
    // chart
    for (long it = 0; it < N(1000); it++)
    {
        int lk = r.below(7), o = r.below(5); // 3: default observer, 4: a custom one
        float temp = r.f(1500, 12000);
        std::array<float, 400> q;
        for (auto &z : q) z = lk == 6 ? r.f(-1, 1) : r.f(0, 1);
        const Spectrum light = lk == 0 ? CS::CIE_D65 : (lk == 1 ? Spectrum::blackbody(temp) : (lk == 2 ? Spectrum::E(r.logf_(1e-3, 1e3)) : (lk == 3 ? CS::TM_30_15::sample[r.below(99)] : (lk == 4 ? CS::Macbeth::Patch[r.below(24)] : Spectrum(q)))));
        std::array<float, 400> ox, oy, oz;
        for (int i = 0; i < 400; i++) { ox[i] = r.f(0, 2); oy[i] = r.below(3) ? 0.f : r.f(0, 1); oz[i] = (float)(1 + std::sin(i * 0.02 * lk)); }
        if (r.below(4) == 0) for (auto *q : {&ox, &oy, &oz}) if (r.below(2)) { int w = (q == &ox ? 0 : q == &oy ? 1 : 2) + 3 * r.below(3); for (int i = 0; i < 400; i++) (*q)[i] = (*cm[w])[i]; } // shares parts with a built-in observer
        const CS::Observer custom{Spectrum(ox), Spectrum(oy), Spectrum(oz)};
        cur("chart", {(double)lk, (double)o, lk == 1 ? temp : light[17]});
        cl();
        if (o == 4) cco();
        const std::vector<Tristimulus> res = o == 3 ? CS::Macbeth::reference(light) : CS::Macbeth::reference(light, o == 4 ? custom : *ob[o]);
        const std::array<float, 400> *cu[3] = {&ox, &oy, &oz};
        int b = o >= 3 ? 0 : base[o];
        if (!check(mr, res.size() == 24, "chart size")) continue;
        for (int p = 0; p < 24; p++) for (int k = 0; k < 3; k++)
        {
            double s = 0, v = 0, mg = 0;
            for (int i = 0; i < 400; i++) { double m = o == 4 ? (*cu[k])[i] : T[(b + k) * 400 + i]; s += m; double w = (double)T[(109 + p) * 400 + i] * light[i] * m; v += w; mg += std::fabs(w); }
            near(mr, res[p][k], D(v / s, 0), "patch", 0, 1e-4 * mg / s + 1e-40);
        }
    }
}
