// writes data/tables.bin: the built-in spectral tables as float32 (run once, by hand, on the audited tree)
#include "common.hpp"
void run()
{
    FILE *f = fopen((H::opt.data + "/tables.bin").c_str(), "wb");
    auto w = [&](const Spectrum &s) { for (int i = 0; i < 400; i++) { float v = s[i]; fwrite(&v, 4, 1, f); } };
    for (auto *s : {&CS::CIE1931_X, &CS::CIE1931_Y, &CS::CIE1931_Z, &CS::CIE2012_X, &CS::CIE2012_Y, &CS::CIE2012_Z, &CS::CIE1931_JuddVos_X, &CS::CIE1931_JuddVos_Y, &CS::CIE1931_JuddVos_Z, &CS::CIE_D65}) w(*s);
    for (auto &s : CS::TM_30_15::sample) w(s);
    for (auto &s : CS::Macbeth::Patch) w(s);
    fclose(f);
}
