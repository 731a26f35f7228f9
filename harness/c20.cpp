// C20: MemoryStream typed values: byte layout in both byte orders, and reads return what was written
#include "common.hpp"
using namespace H;
typedef CS::MemoryStream MS;
namespace
{
enum Ty { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, STR, SUB, P32, P64, NTY };
const char *TY[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string", "substr", "pointer32", "pointer64"};
struct Item { Ty t; bool be; uint64_t v; std::string s; size_t len; size_t at, end; bool adjusted; bool abe; uint64_t target; };
int width(Ty t) { switch (t) { case U8: case I8: return 1; case U16: case I16: return 2; case U32: case I32: case F32: case P32: return 4; default: return 8; } }
void emit(std::vector<uint8_t> &m, size_t at, uint64_t v, int w, bool be)
{
    if (m.size() < at + w) m.resize(at + w);
    for (int i = 0; i < w; i++) m[at + i] = (uint8_t)(v >> 8 * (be ? w - 1 - i : i));
}
uint64_t value(Rng &r, Ty t)
{
    int w = width(t) * 8;
    uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1;
    if (t == F32)
    {
        for (;;)
        {
            uint32_t u = r.below(3) ? (uint32_t)r.u64() : ubits(r.pick<float>({0.f, -0.f, 1.f, -1.f, INFINITY, -INFINITY, NAN, FLT_MAX, FLT_MIN, FLT_TRUE_MIN, -FLT_TRUE_MIN, 3.14159f}));
            if ((u & 0x7f800000u) == 0x7f800000u && (u & 0x7fffff) && !(u & 0x400000)) continue; // signalling NaN: quieting is allowed
            return u;
        }
    }
    if (t == F64)
    {
        for (;;)
        {
            double d = r.pick<double>({0., -0., 1., -1., INFINITY, -INFINITY, NAN, DBL_MAX, DBL_MIN, 5e-324, -5e-324, 3.141592653589793});
            uint64_t u;
            memcpy(&u, &d, 8);
            if (r.below(3)) u = r.u64();
            if ((u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull) && !(u & 0x8000000000000ull)) continue;
            return u;
        }
    }
    switch (r.below(6))
    {
    case 0: return r.below(4);
    case 1: return mask - r.below(4);
    case 2: return ((mask >> 1) + r.below(4) - 1) & mask;           // around the sign bit
    case 3: return (0x0123456789abcdefull >> (64 - w)) & mask;
    case 4: return (0x80ull << 8 * r.below(w / 8)) & mask;           // one high bit in one byte
    default: return r.u64() & mask;
    }
}
std::string text(Rng &r)
{
    int n;
    switch (r.below(5)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = 2 + r.below(6); break; case 3: n = 250 + r.below(12); break; default: n = r.below(400); }
    std::string s(n, ' ');
    int k = r.below(3);
    for (auto &c : s) c = k == 0 ? (char)('a' + r.below(26)) : (k == 1 ? (char)r.below(256) : (char)(r.below(3) ? 'x' : 0));
    return s;
}
uint64_t getv(MS &m, Ty t)
{
    switch (t)
    {
    case U8: return m.getUint8(); case I8: return (uint8_t)m.getInt8(); case U16: return m.getUint16(); case I16: return (uint16_t)m.getInt16();
    case U32: return m.getUint32(); case I32: return (uint32_t)m.getInt32(); case U64: return m.getUint64(); case I64: return (uint64_t)m.getInt64();
    case F32: return ubits(m.getFloat());
    case F64: { double d = m.getDouble(); uint64_t u; memcpy(&u, &d, 8); return u; }
    case P32: return m.getPointer32(); case P64: return m.getPointer64();
    default: return 0;
    }
}
void putv(MS &m, Ty t, uint64_t v)
{
    switch (t)
    {
    case U8: m.putUint8((uint8_t)v); break; case I8: m.putInt8((int8_t)(uint8_t)v); break; case U16: m.putUint16((uint16_t)v); break; case I16: m.putInt16((int16_t)(uint16_t)v); break;
    case U32: m.putUint32((uint32_t)v); break; case I32: m.putInt32((int32_t)(uint32_t)v); break; case U64: m.putUint64(v); break; case I64: m.putInt64((int64_t)v); break;
    case F32: m.putFloat(fbits((uint32_t)v)); break;
    case F64: { double d; memcpy(&d, &v, 8); m.putDouble(d); break; }
    default: break;
    }
}
} // namespace
void run()
{
    Rng r = rng("c20");
    Mon &ml = mon("bytes written = layout"), &mc = mon("cursor after a write"), &mr = mon("value read = value written"), &mrc = mon("cursor after a read"), &mcp = mon("stream made from bytes reads them"), &mp = mon("pointer fields"), &mstr = mon("strings"), &meof = mon("reading past the end gives zero bytes"), &msz = mon("size"), &mi = mon("signed and unsigned readings agree");
    Cls cbe("big endian writes", 1000), cle("little endian writes", 1000), csw("byte order switched within a stream", 500), cov("overwriting inside the buffer", 300), cadj("adjusted pointers", 300), ctr("value cut by the end of the data", 300), cempty("empty string", 100), cnul("string holding NUL", 100), clong("string longer than its field", 100), cpad("field longer than its string", 100);
    for (const char *t : TY) need(t, 300);
    long n = N(60000);
    for (long it = 0; it < n; it++)
    {
        MS m;
        std::vector<uint8_t> model;
        std::vector<Item> items;
        bool be = false;
        int k = 1 + r.below(40), mode = r.below(3);
        if (mode == 1) { be = true; m.setWriteEndian(MS::BIG); }
        for (int i = 0; i < k; i++)
        {
            if (mode == 2 && r.below(3) == 0) { be = !be; m.setWriteEndian(be ? MS::BIG : MS::LITTLE); csw(); }
            Item x{};
            x.t = (Ty)r.below(NTY);
            x.be = be;
            x.at = model.size();
            (be ? cbe : cle)();
            cls(TY[x.t]);
            if (x.t == STR)
            {
                x.s = text(r);
                if (x.s.empty()) cempty();
                if (x.s.find('\0') != std::string::npos) cnul();
                cur("putString", {(double)x.s.size(), (double)be, (double)x.at});
                m.putString(x.s);
                emit(model, x.at, x.s.size() + 1, 4, be);
                model.insert(model.end(), x.s.begin(), x.s.end());
                model.push_back(0);
            }
            else if (x.t == SUB)
            {
                x.s = text(r);
                x.len = r.below(3) == 0 ? x.s.size() + 1 : r.below(300);
                cur("putSubstr", {(double)x.s.size(), (double)x.len, (double)x.at});
                m.putSubstr(x.s, x.len);
                if (x.len > x.s.size() + 1) cpad();
                if (x.len < x.s.size() + 1) clong();
                for (size_t q = 0; q + 1 < x.len; q++) model.push_back(q < x.s.size() ? (uint8_t)x.s[q] : 0);
                if (x.len) model.push_back(0);
            }
            else if (x.t == P32 || x.t == P64)
            {
                cur("putPointer", {(double)x.t, (double)x.at});
                size_t p = x.t == P32 ? m.putPointer32() : m.putPointer64();
                same(mp, (double)p, (double)x.at, "putPointer returns the field's position");
                emit(model, x.at, 0, width(x.t), be);
            }
            else
            {
                x.v = value(r, x.t);
                cur("put", {(double)x.t, (double)be, (double)(x.v >> 32), (double)(uint32_t)x.v, (double)x.at});
                putv(m, x.t, x.v);
                emit(model, x.at, x.v, width(x.t), be);
            }
            x.end = model.size();
            same(mc, (double)m.ftell(), (double)x.end, "ftell after a write");
            items.push_back(x);
            // resolve an earlier pointer field to here
            if (r.below(4) == 0)
                for (auto &q : items) if ((q.t == P32 || q.t == P64) && !q.adjusted && r.below(2))
                {
                    q.adjusted = true; q.abe = be; q.target = model.size();
                    cur("adjustPointer", {(double)q.t, (double)q.at, (double)q.target, (double)be});
                    if (q.t == P32) m.adjustPointer32(q.at); else m.adjustPointer64(q.at);
                    emit(model, q.at, q.target, width(q.t), be);
                    same(mp, (double)m.ftell(), (double)model.size(), "adjustPointer keeps the cursor");
                    cadj();
                    break;
                }
        }
        auto compare = [&](const char *what) {
            same(msz, (double)m.buffer().size(), (double)model.size(), "buffer size");
            ml.checks += model.size();
            for (size_t i = 0; i < model.size() && i < m.buffer().size(); i++) if (m.buffer()[i] != model[i]) { fail(ml, fmt("%s: byte %zu is %02x, expected %02x", what, i, m.buffer()[i], model[i])); break; }
        };
        cur("layout", {(double)it, (double)k, (double)mode, (double)model.size()});
        compare("after writing");
        // overwrite some fixed-size fields in place
        if (r.below(2))
            for (auto &q : items) if (q.t <= F64 && r.below(4) == 0)
            {
                q.v = value(r, q.t);
                cur("overwrite", {(double)q.t, (double)q.at, (double)q.be, (double)(uint32_t)q.v});
                m.setWriteEndian(q.be ? MS::BIG : MS::LITTLE);
                m.seekTo(q.at);
                putv(m, q.t, q.v);
                emit(model, q.at, q.v, width(q.t), q.be);
                same(mc, (double)m.ftell(), (double)q.end, "ftell after an overwrite");
                cov();
            }
        compare("after overwriting");
        // read everything back in order, from the stream itself and from a stream made of the bytes
        std::unique_ptr<uint8_t[]> heap(new uint8_t[model.size() + 1]);
        if (model.size()) memcpy(heap.get(), model.data(), model.size());
        MS m2(heap.get(), model.size());
        heap.reset(); // the stream keeps its own copy
        for (MS *s : {&m, &m2})
        {
            Mon &mm = s == &m ? mr : mcp;
            cur("rewind", {(double)it});
            s->seekTo(0);
            for (auto &q : items)
            {
                bool re = q.adjusted ? q.abe : q.be;
                s->setReadEndian(re ? MS::BIG : MS::LITTLE);
                cur("get", {(double)q.t, (double)re, (double)q.at, (double)(uint32_t)(q.v >> 32), (double)(uint32_t)q.v});
                if (q.t == STR) { std::string g = s->get_string(); check(mstr, g == q.s, "string read differs from the string written"); }
                else if (q.t == SUB)
                {
                    std::string g = s->getSubstr((int)q.len), want = q.s.substr(0, q.len ? q.len - 1 : 0);
                    if (q.len) want.resize(q.len - 1, 0);
                    check(mstr, g == want, "field read differs from the field written");
                }
                else if (q.t == P32 || q.t == P64) check(mp, getv(*s, q.t) == (q.adjusted ? q.target : 0), "pointer read differs");
                else if (!check(mm, getv(*s, q.t) == q.v, "value read differs from the value written")) {}
                same(mrc, (double)s->ftell(), (double)q.end, "ftell after a read");
            }
            check(meof, s->feof(), "not at the end after reading everything");
        }
        // a string whose length field promises more than there is
        if (it % 4 == 0)
        {
            uint32_t have = r.below(20), promise = have + 1 + r.below(300);
            bool e = r.below(2);
            MS q;
            q.setWriteEndian(e ? MS::BIG : MS::LITTLE);
            q.setReadEndian(e ? MS::BIG : MS::LITTLE);
            q.putUint32(promise);
            std::string want;
            for (uint32_t i = 0; i < have; i++) { char ch = (char)(1 + r.below(255)); want.push_back(ch); q.putUint8((uint8_t)ch); }
            want.resize(promise - 1, 0);
            if (have > promise - 1) want.resize(promise - 1);
            cur("cut string", {(double)have, (double)promise, (double)e});
            q.seekTo(0);
            check(meof, q.get_string() == want, "cut string is not continued with zeros");
            check(meof, q.feof(), "not at the end after a cut string");
            q.seekTo(4);
            check(meof, q.getSubstr((int)promise) == want, "cut field is not continued with zeros");
            ctr();
        }
        // raw bytes through every reader, cut by the end
        size_t nb = r.below(12);
        std::vector<uint8_t> raw(nb);
        for (auto &b : raw) b = (uint8_t)(r.below(2) ? r.below(256) : (r.below(2) ? 0xff : 0x80));
        for (int t = 0; t <= F64; t++) for (int e = 0; e < 2; e++)
        {
            if (t == F32 || t == F64) continue;
            size_t at = nb ? r.below((uint32_t)nb + 1) : 0;
            MS q(raw.data(), nb);
            q.setReadEndian(e ? MS::BIG : MS::LITTLE);
            cur("raw", {(double)t, (double)e, (double)at, (double)nb, nb ? (double)raw[0] : 0});
            q.seekTo(at);
            int w = width((Ty)t);
            uint64_t want = 0;
            for (int i = 0; i < w; i++) want |= (uint64_t)(at + i < nb ? raw[at + i] : 0) << 8 * (e ? w - 1 - i : i);
            if (at + w > nb) ctr();
            check(at + w > nb ? meof : mcp, getv(q, (Ty)t) == want, "value read from bytes differs");
            same(mrc, (double)q.ftell(), (double)std::min(nb, at + w), "ftell after a raw read");
            // the signed value itself, not only its bits
            q.seekTo(at);
            switch (t)
            {
            case I8: same(mi, q.getInt8(), (int8_t)want, "int8"); break;
            case I16: same(mi, q.getInt16(), (int16_t)want, "int16"); break;
            case I32: same(mi, q.getInt32(), (int32_t)want, "int32"); break;
            case I64: check(mi, q.getInt64() == (int64_t)want, "int64"); break;
            case U32: check(mi, (int64_t)q.getUint32() == (int64_t)want, "uint32"); break;
            default: break;
            }
        }
    }
    // mixed histories: typed reads and writes at any position, with separate byte orders, against a byte model
    Mon &mh = mon("mixed history: contents"), &mhv = mon("mixed history: values"), &mhc = mon("mixed history: cursor");
    Cls chx("typed write across the end", 300), chi("typed write inside", 300), chr("typed read across the end", 300), chs("string inside a history", 100), cha("pointer adjusted with the cursor elsewhere", 300), chd("read and write orders differ", 300), chn("stream started again or copied in a history", 300);
    long nh = N(30000);
    for (long it = 0; it < nh; it++)
    {
        std::vector<uint8_t> b(r.below(3) ? r.below(40) : 0);
        for (auto &x : b) x = (uint8_t)(r.below(2) ? r.u64() : r.below(3));
        MS m(b.data(), b.size());
        size_t p = 0;
        bool re = false, we = false;
        int len = 4 + r.below(40);
        bool bad = false;
        for (int i = 0; i < len && !bad; i++)
        {
            size_t sz = b.size();
            auto raw = [&](size_t at, int w, bool e) { uint64_t v = 0; for (int q = 0; q < w; q++) v |= (uint64_t)(at + q < sz ? b[at + q] : 0) << 8 * (e ? w - 1 - q : q); return v; };
            switch (r.below(11))
            {
            case 10:
                switch (r.below(6))
                {
                case 0: // starts again, little-endian
                    if (r.below(2)) break;
                    chn();
                    cur("history: init", {(double)sz, (double)re, (double)we});
                    if (r.below(3) == 0) { m.init(); b.clear(); }
                    else
                    {
                        std::vector<uint8_t> d(1 + r.below(40));
                        for (auto &x : d) x = (uint8_t)r.u64();
                        m.init(d.data(), d.size());
                        b = d;
                    }
                    p = 0;
                    re = we = false;
                    break;
                case 1: { // a copy carries contents, cursor and orders, and is independent
                    cur("history: copy", {(double)sz, (double)p, (double)re, (double)we});
                    MS c(m);
                    if (r.below(2)) { m.init(); m = c; c.init(); } else { m.put_at(0, 0x55); m.setReadEndian(MS::BIG); m = c; }
                    chn();
                    break;
                }
                case 2: { size_t at = r.below(60); uint8_t v = (uint8_t)r.u64(); cur("history: put_at", {(double)at, (double)sz}); m.put_at(at, v); if (b.size() <= at) b.resize(at + 1); b[at] = v; break; }
                case 3: { size_t at = r.below(60), k = 1 + r.below(11); uint8_t d[12]; for (auto &x : d) x = (uint8_t)r.u64(); cur("history: write_at", {(double)at, (double)k, (double)sz}); m.write_at(d, k, at); if (b.size() < at + k) b.resize(at + k); memcpy(b.data() + at, d, k); break; }
                case 4: { size_t k = r.below(12); uint8_t d[12] = {}; cur("history: read", {(double)p, (double)k, (double)sz}); size_t g = m.read(d, k), w = std::min(k, sz - p); same(mhv, (double)g, (double)w, "read"); check(mhv, w == 0 || !memcmp(d, b.data() + p, w), "bytes read"); p += w; break; }
                case 5: { int a = r.pick<int>({2, 4, 8}); size_t q = (p + a - 1) / a * a; if (q > sz) break; cur("history: align", {(double)a, (double)p, (double)sz}); m.align(a); p = q; break; }
                }
                break;
            case 0: re = r.below(2); cur("history: read order", {(double)re}); m.setReadEndian(re ? MS::BIG : MS::LITTLE); break;
            case 1: we = r.below(2); cur("history: write order", {(double)we}); m.setWriteEndian(we ? MS::BIG : MS::LITTLE); break;
            case 2: case 3:
                p = r.below(3) ? r.below((uint32_t)sz + 1) : (sz > 8 ? sz - r.below(9) : sz);
                cur("history: seekTo", {(double)p, (double)sz});
                m.seekTo(p);
                break;
            case 4: case 5:
            {
                Ty t = (Ty)r.below(STR);
                int w = width(t);
                uint64_t v = value(r, t);
                cur("history: put", {(double)t, (double)p, (double)sz, (double)we, (double)(v >> 32), (double)(uint32_t)v});
                if (p + w > sz) chx(); else chi();
                if (re != we) chd();
                putv(m, t, v);
                emit(b, p, v, w, we);
                p += w;
                break;
            }
            case 6: case 7:
            {
                Ty t = (Ty)r.pick<int>({U8, I8, U16, I16, U32, I32, U64, I64, P32, P64});
                int w = width(t);
                cur("history: get", {(double)t, (double)p, (double)sz, (double)re});
                if (p + w > sz) chr();
                check(mhv, getv(m, t) == raw(p, w, re), "value read differs from the bytes at the cursor");
                p = std::min(sz, p + w);
                break;
            }
            case 8:
            {
                Ty t = r.below(2) ? P32 : P64;
                size_t w = width(t);
                if (r.below(3) == 0)
                {
                    cur("history: putPointer", {(double)t, (double)p, (double)sz});
                    same(mhv, (double)(t == P32 ? m.putPointer32() : m.putPointer64()), (double)p, "putPointer");
                    emit(b, p, 0, (int)w, we);
                    p += w;
                }
                else if (sz >= w)
                {
                    size_t at = r.below((uint32_t)(sz - w) + 1);
                    cur("history: adjustPointer", {(double)t, (double)at, (double)p, (double)sz, (double)we});
                    if (t == P32) m.adjustPointer32(at); else m.adjustPointer64(at);
                    emit(b, at, sz, (int)w, we);
                    if (p < sz) cha();
                }
                break;
            }
            case 9:
            {
                chs();
                int k = r.below(5);
                if (k == 0)
                {
                    std::string a = text(r);
                    cur("history: putString", {(double)a.size(), (double)p, (double)sz, (double)we});
                    m.putString(a);
                    emit(b, p, a.size() + 1, 4, we);
                    if (b.size() < p + 5 + a.size()) b.resize(p + 5 + a.size());
                    memcpy(b.data() + p + 4, a.c_str(), a.size() + 1);
                    p += 5 + a.size();
                }
                else if (k == 1)
                {
                    std::string a = text(r);
                    size_t l = r.below(20);
                    cur("history: putSubstr", {(double)a.size(), (double)l, (double)p, (double)sz});
                    m.putSubstr(a, l);
                    if (b.size() < p + l) b.resize(p + l);
                    for (size_t q = 0; q < l; q++) b[p + q] = q + 1 < l && q < a.size() ? (uint8_t)a[q] : 0;
                    p += l;
                }
                else if (k == 2)
                {
                    size_t l = r.below(20);
                    std::string want;
                    for (size_t q = 0; q + 1 < l; q++) want.push_back(p + q < sz ? (char)b[p + q] : 0);
                    cur("history: getSubstr", {(double)l, (double)p, (double)sz});
                    check(mhv, m.getSubstr((int)l) == want, "getSubstr");
                    p = std::min(sz, p + l);
                }
                else
                {
                    int32_t l = (int32_t)raw(p, 4, re);
                    if (l > 5000) break; // a length of any size is legal, but slow to read
                    std::string want;
                    for (int32_t q = 0; q + 1 < l; q++) want.push_back(p + 4 + q < sz ? (char)b[p + 4 + q] : 0);
                    cur("history: get_string", {(double)l, (double)p, (double)sz, (double)re});
                    check(mhv, m.get_string() == want, "get_string");
                    p = std::min(sz, p + 4 + (l > 0 ? (size_t)l : 0));
                }
                break;
            }
            }
            same(mhc, (double)m.ftell(), (double)p, "ftell");
            mh.checks++;
            if (m.buffer().size() != b.size() || (b.size() && memcmp(m.buffer().data(), b.data(), b.size()))) { fail(mh, fmt("contents differ from the model (%zu and %zu bytes)", m.buffer().size(), b.size())); bad = true; }
        }
    }
    // streams and strings beyond 8, 16 and 24 bits of length: positions and lengths keep all their bytes
    Mon &mlg = mon("large streams and strings");
    Cls cl16("stream above 64 KiB", 6), cl24("stream above 16 MiB", 2), cs16("string above 64 KiB", 6);
    auto big = [&](size_t fill, bool e) {
        MS m;
        m.setWriteEndian(e ? MS::BIG : MS::LITTLE);
        m.setReadEndian(e ? MS::BIG : MS::LITTLE);
        cur("large stream", {(double)fill, (double)e});
        m.putUint32(0xdeadbeef);
        size_t p32 = m.putPointer32(), p64 = m.putPointer64();
        std::vector<uint8_t> blk(fill);
        for (size_t i = 0; i < fill; i += 97) blk[i] = (uint8_t)(i * 131 + 7);
        check(mlg, m.write(blk.data(), fill) == fill, "write length");
        m.putUint32(0x01020304);
        size_t end = 16 + fill + 4;
        same(mlg, (double)m.ftell(), (double)end, "ftell");
        m.adjustPointer32(p32);
        m.adjustPointer64(p64);
        same(mlg, (double)m.ftell(), (double)end, "ftell after adjusting");
        same(mlg, (double)m.buffer().size(), (double)end, "size");
        m.seekTo(0);
        check(mlg, m.getUint32() == 0xdeadbeef, "first word");
        same(mlg, (double)m.getPointer32(), (double)end, "pointer32");
        same(mlg, (double)m.getPointer64(), (double)end, "pointer64");
        for (int t = 0; t < 200; t++) { size_t at = t < 4 ? (t & 1 ? fill - 1 : 0) : (size_t)(r.d() * fill); m.seekTo(16 + at); same(mlg, m.getUint8(), blk[at], "byte"); same(mlg, m.get_at(16 + at), blk[at], "get_at"); same(mlg, (double)m.ftell(), (double)(17 + at), "cursor"); }
        m.seekTo(end - 4);
        check(mlg, m.getUint32() == 0x01020304 && m.feof(), "last word");
        if (end > 65536) cl16();
        if (end > (1u << 24)) cl24();
    };
    for (int e = 0; e < 2; e++)
    {
        for (size_t f : {200u, 256u - 20, 257u - 20, 32768u, 65536u - 21, 65536u - 20, 65536u - 19, 70001u, 131072u, 1000003u, (1u << 23) + 5, (1u << 24) - 20, (1u << 24) + 12345}) if (opt.shard == 0 || f < (1u << 20)) big(f, e);
        for (int t = 0; t < N(4); t++) big((size_t)r.logf_(1e3, 3e6), e);
        for (int t = 0; t < 8 + N(2); t++)
        {
            size_t k = t < 8 ? (size_t[]){65533, 65534, 65535, 65536, 32767, 32768, 255, 1000000}[t] : (size_t)r.logf_(100, 1e6);
            std::string a(k, 'x');
            for (size_t i = 0; i < k; i += 61) a[i] = (char)(i * 7);
            MS m;
            m.setWriteEndian(e ? MS::BIG : MS::LITTLE);
            m.setReadEndian(e ? MS::BIG : MS::LITTLE);
            cur("large string", {(double)k, (double)e});
            m.putString(a);
            m.putSubstr(a, k / 2);
            m.putSubstr(a, k + 100);
            m.putUint8(0x5a);
            same(mlg, (double)m.ftell(), (double)(4 + k + 1 + k / 2 + k + 100 + 1), "ftell after large strings");
            m.seekTo(0);
            check(mlg, m.get_string() == a, "large string");
            check(mlg, m.getSubstr((int)(k / 2)) == a.substr(0, k / 2 - 1), "cut field");
            std::string pad = a;
            pad.resize(k + 99, 0);
            check(mlg, m.getSubstr((int)(k + 100)) == pad, "padded field");
            check(mlg, m.getUint8() == 0x5a && m.feof(), "byte after large strings");
            if (k >= 65535) cs16();
        }
    }
    if (opt.thorough && opt.variant == "rel" && opt.shard == 0)
    {
        // positions beyond 32 bits
        try
        {
            MS m;
            m.putPointer64();
            m.put_at((size_t)0x123456789ull, 7);
            cur("stream above 4 GiB", {(double)m.buffer().size()});
            m.adjustPointer64(0);
            m.seekTo(0);
            same(mlg, (double)m.getPointer64(), (double)0x12345678aull, "pointer64");
            m.setWriteEndian(MS::BIG);
            m.setReadEndian(MS::BIG);
            m.adjustPointer64(0);
            m.seekTo(0);
            same(mlg, (double)m.getPointer64(), (double)0x12345678aull, "pointer64, big endian");
            same(mlg, m.get_at((size_t)0x123456789ull), 7, "get_at");
        }
        catch (const std::bad_alloc &) { note("no memory for a stream above 4 GiB"); }
    }
}
