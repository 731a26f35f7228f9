// C21: MemoryStream as a byte file: cursor and random access agree with a model over any history of operations
#include "common.hpp"
using namespace H;
typedef CS::MemoryStream MS;
namespace
{
struct Model
{
    std::vector<uint8_t> b;
    size_t p = 0;
    bool rbe = false, wbe = false;
};
enum Op { SK_TOP, SK_CUR, SK_END, SEEKTO, GET_AT, PUT_AT, READ_AT, WRITE_AT, READ, WRITE, GET8, PUT8, ALIGN, INIT, PTR, MARK, COPY, EDIT, ENDIAN, GET16, PUT16, NOP };
const char *OPS[] = {"fseek TOP", "fseek CURRENT", "fseek END", "seekTo", "get_at", "put_at", "read_at", "write_at", "read", "write", "getUint8", "putUint8", "align", "init", "ptr", "mark", "copy", "edit of the buffer", "byte order", "getUint16", "putUint16"};
} // namespace
void run()
{
    Rng r = rng("c21");
    Mon &mb = mon("contents = model"), &mp = mon("cursor = model"), &msz = mon("size = model"), &mv = mon("values returned"), &mdst = mon("reads touch only the bytes they return"), &me = mon("feof"), &msrc = mon("sources are kept"), &ms = mon("fseek returns the new position");
    Cls cgap("write past the end leaves zeros", 300), cpart("read cut by the end", 300), ceof("read at the end", 300), cov("write across the end", 300), cgrow("put_at past the end", 300), cempty("operation on an empty stream", 300), clen("histories above 100 operations", 50), coob("get_at or read_at past the end", 300), cmid("seek into the middle", 1000), cbig("blocks above 4096 bytes", 20), chuge("streams of 60 KB to 25 MB", 10), cfar("jump up to 1 MB beyond the end", 20), cmove("moved, swapped or copied in a vector", 300), cedit("buffer edited", 300), cblind("histories observed only at their end", 300);
    for (const char *t : OPS) need(t, 300);
    std::set<uint64_t> pairs;
    long n = N(40000);
    for (long it = 0; it < n; it++)
    {
        MS s;
        Model m;
        int start = r.below(3);
        if (start == 1)
        {
            std::unique_ptr<uint8_t[]> d;
            size_t k = 1 + r.below(200);
            d.reset(new uint8_t[k]);
            for (size_t i = 0; i < k; i++) d[i] = (uint8_t)r.u64();
            m.b.assign(d.get(), d.get() + k);
            s = MS(d.get(), k);
        }
        bool huge = it % 4000 == 1;
        if (huge)
        {
            chuge();
            size_t k = (size_t)r.logf_(60000, it % 8000 == 1 && opt.shard == 0 ? 2.5e7 : 4e6);
            m.b.resize(k);
            for (size_t i = 0; i < k; i += 1 + r.below(300)) m.b[i] = (uint8_t)r.u64();
            s = MS(m.b.data(), k);
        }
        else if (start == 2) { size_t k = r.below(100); s = MS(nullptr, k); m.b.assign(k, 0); }
        const bool far = huge || it % 600 == 7; // jumps far beyond the end
        const size_t cap = far ? m.b.size() + 3000000 : 20000;
        int len = r.below(8) ? 1 + r.below(60) : 100 + r.below(150);
        if (len > 100) clen();
        int prev = NOP;
        const bool blind = r.below(4) == 0;
        if (blind) cblind();
        std::string trace;
        for (int i = 0; i < len; i++)
        {
            int op = r.below(NOP);
            size_t sz = m.b.size();
            if (sz == 0) cempty();
            cls(OPS[op]);
            pairs.insert((uint64_t)prev * 64 + op + (m.p == sz ? 4096 : 0) + (sz == 0 ? 8192 : 0));
            prev = op;
            auto blk = [&]() -> size_t { switch (r.below(6)) { case 0: return r.below(2); case 1: return sz - m.p; case 2: return sz - m.p + 1 + r.below(4); default: return r.below(24); } };
            auto anypos = [&]() -> size_t { switch (r.below(6)) { case 0: return sz; case 1: if (far && r.below(2)) { cfar(); return sz + (size_t)r.logf_(20, 1.2e6); } return sz + 1 + r.below(20); case 2: return sz ? sz - 1 : 0; case 3: return 0; default: return r.below((uint32_t)sz + 1); } };
            auto inpos = [&]() -> size_t { switch (r.below(5)) { case 0: return sz; case 1: return 0; default: cmid(); return r.below((uint32_t)sz + 1); } };
            switch (op)
            {
            case SK_TOP: { size_t p = inpos(); cur(OPS[op], {(double)p, (double)sz, (double)i}); same(ms, s.fseek((int)p, MS::TOP), (double)p, "fseek TOP"); m.p = p; break; }
            case SK_CUR: { size_t p = inpos(); cur(OPS[op], {(double)p - (double)m.p, (double)sz, (double)m.p}); same(ms, s.fseek((int)p - (int)m.p, MS::CURRENT), (double)p, "fseek CURRENT"); m.p = p; break; }
            case SK_END: { if (!sz) break; int off = (int)r.below((uint32_t)sz + 1) - 1; /* position size - offs - 1 */ cur(OPS[op], {(double)off, (double)sz}); m.p = sz - off - 1; same(ms, s.fseek(off, MS::END), (double)m.p, "fseek END"); break; }
            case SEEKTO: { size_t p = inpos(); cur(OPS[op], {(double)p, (double)sz}); s.seekTo(p); m.p = p; break; }
            case GET_AT: { size_t p = r.below(20) ? anypos() : (size_t)r.u64(); if (p >= sz) coob(); cur(OPS[op], {(double)p, (double)sz}); same(mv, s.get_at(p), p < sz ? m.b[p] : 0, "get_at"); break; }
            case PUT_AT: { size_t p = anypos(); if (sz > cap) p %= sz; if (p >= sz) cgrow(); uint8_t v = (uint8_t)r.u64(); cur(OPS[op], {(double)p, (double)sz, (double)v}); s.put_at(p, v); if (p >= sz) m.b.resize(p + 1); m.b[p] = v; break; }
            case READ_AT: case READ:
            {
                size_t p = op == READ ? m.p : (r.below(12) ? anypos() : (size_t)r.u64() | (1ull << 62)), k = r.below(60) ? (p <= sz ? blk() : r.below(30)) : 5000 + r.below(9000);
                if (k > 4096) cbig();
                std::unique_ptr<uint8_t[]> d(new uint8_t[k ? k : 1]);
                memset(d.get(), 0xA5, k ? k : 1);
                size_t want = p >= sz ? 0 : std::min(k, sz - p);
                if (want < k) (p >= sz ? ceof : cpart)();
                if (p > sz) coob();
                cur(OPS[op], {(double)p, (double)k, (double)sz});
                size_t got = op == READ ? s.read(d.get(), k) : s.read_at(d.get(), k, p);
                same(mv, (double)got, (double)want, "bytes read");
                mdst.checks++;
                for (size_t q = 0; q < k; q++) if (d[q] != (q < want ? m.b[p + q] : 0xA5)) { fail(mdst, fmt("destination byte %zu is %02x", q, d[q])); break; }
                if (op == READ) m.p += want;
                break;
            }
            case WRITE_AT: case WRITE:
            {
                size_t p = op == WRITE ? m.p : anypos(), k = r.below(60) ? (p <= sz ? blk() : r.below(30)) : 5000 + r.below(9000);
                if (far && r.below(12) == 0) k = (size_t)r.logf_(5000, 600000);
                if (sz > cap || (k > 20000 && !far)) k = std::min(k, sz - std::min(sz, p));
                if (k > 4096) cbig();
                std::unique_ptr<uint8_t[]> d(new uint8_t[k ? k : 1]), keep(new uint8_t[k ? k : 1]);
                for (size_t q = 0; q < k; q++) keep[q] = d[q] = (uint8_t)r.u64();
                if (p > sz && k) cgap();
                if (p < sz && p + k > sz) cov();
                if (k == 0 && p > sz) { p = sz; } // an empty write past the end may or may not extend the stream
                cur(OPS[op], {(double)p, (double)k, (double)sz});
                size_t got = op == WRITE ? s.write(d.get(), k) : s.write_at(d.get(), k, p);
                same(mv, (double)got, (double)k, "bytes written");
                check(msrc, memcmp(d.get(), keep.get(), k) == 0, "source changed");
                if (p + k > sz) m.b.resize(p + k);
                for (size_t q = 0; q < k; q++) m.b[p + q] = keep[q];
                if (op == WRITE) m.p += k;
                break;
            }
            case GET8: { cur(OPS[op], {(double)m.p, (double)sz}); uint8_t g = s.getUint8(); same(mv, g, m.p < sz ? m.b[m.p] : 0, "getUint8"); if (m.p < sz) m.p++; else ceof(); break; }
            case PUT8: { uint8_t v = (uint8_t)r.u64(); cur(OPS[op], {(double)m.p, (double)sz, (double)v}); s.putUint8(v); if (m.p == sz) m.b.push_back(v); else m.b[m.p] = v; m.p++; break; }
            case ALIGN: { int a = r.pick<int>({1, 2, 4, 8, 16, 3, 7, 5, 12, 32, 64, 100, 256, 1000, 4096}); if (r.below(4) == 0) a = r.below(2) ? (int)r.logf_(1, 2e9) : 1 << r.below(31); size_t p = (m.p + (size_t)a - 1) / (size_t)a * (size_t)a; cur(OPS[op], {(double)a, (double)m.p, (double)sz}); if (p > sz) break; s.align(a); m.p = p; break; }
            case INIT:
            {
                if (r.below(3)) break;
                cur(OPS[op], {(double)sz});
                if (r.below(2)) { s.init(); m = Model(); }
                else
                {
                    size_t k = 1 + r.below(150);
                    std::unique_ptr<uint8_t[]> d(new uint8_t[k]);
                    for (size_t q = 0; q < k; q++) d[q] = (uint8_t)r.u64();
                    s.init(d.get(), k);
                    m = Model();
                    m.b.assign(d.get(), d.get() + k);
                }
                break;
            }
            case PTR: { if (!sz) break; size_t p = r.below((uint32_t)sz); cur(OPS[op], {(double)p, (double)sz}); same(mv, *(uint8_t *)s.ptr(p), m.b[p], "ptr(p)"); if (m.p < sz) same(mv, *(uint8_t *)s.ptr(), m.b[m.p], "ptr()"); break; }
            case MARK: { cur(OPS[op], {(double)m.p}); size_t q = s.mark(); same(mp, (double)q, (double)m.p, "mark"); size_t p = inpos(); s.seekTo(p); if (r.below(2)) s.seekTo(q); else m.p = p; break; }
            case COPY:
            {
                cur(OPS[op], {(double)sz, (double)m.p});
                MS t(s);
                t.put_at(sz, 1); // the copy is independent
                same(msz, (double)s.buffer().size(), (double)sz, "copy is independent");
                switch (r.below(5))
                {
                case 0: { MS u(s); s = MS(); s = u; break; }
                case 1: { MS u(std::move(s)); s = std::move(u); cmove(); break; }
                case 2: { MS &self = s; s = self; break; }
                case 3: { MS u; u.putUint32(7); std::swap(u, s); same(msz, (double)u.buffer().size(), (double)sz, "swapped"); std::swap(s, u); cmove(); break; }
                default: { std::vector<MS> v; for (int q = 0; q < 3; q++) v.push_back(s); s = v[r.below(3)]; cmove(); break; }
                }
                if (r.below(2)) same(mp, (double)t.ftell(), (double)m.p, "a copy has the cursor of its original");
                break;
            }
            case EDIT: // the buffer is public: what is changed there is what the stream holds
            {
                cur(OPS[op], {(double)sz, (double)m.p});
                size_t p = sz ? r.below((uint32_t)sz) : 0;
                uint8_t v = (uint8_t)r.u64();
                switch (r.below(4))
                {
                case 0: if (sz) { s.buffer()[p] = v; m.b[p] = v; } break;
                case 1: s.buffer().push_back(v); m.b.push_back(v); break;
                case 2: { size_t k = m.p + r.below(40); if (k > sz + 40) k = sz; s.buffer().resize(k, v); m.b.resize(k, v); break; }
                default: if (sz) { *(uint8_t *)s.ptr(p) = v; m.b[p] = v; }
                }
                cedit();
                break;
            }
            case ENDIAN: { bool e = r.below(2); cur(OPS[op], {(double)e}); if (r.below(2)) { s.setReadEndian(e ? MS::BIG : MS::LITTLE); m.rbe = e; } else { s.setWriteEndian(e ? MS::BIG : MS::LITTLE); m.wbe = e; } break; }
            case GET16:
            {
                cur(OPS[op], {(double)m.p, (double)sz, (double)m.rbe});
                uint8_t a = m.p < sz ? m.b[m.p] : 0, b = m.p + 1 < sz ? m.b[m.p + 1] : 0;
                same(mv, s.getUint16(), m.rbe ? a * 256 + b : b * 256 + a, "getUint16");
                m.p = std::min(sz, m.p + 2);
                break;
            }
            case PUT16:
            {
                uint16_t v = (uint16_t)r.u64();
                cur(OPS[op], {(double)m.p, (double)sz, (double)v, (double)m.wbe});
                s.putUint16(v);
                if (m.b.size() < m.p + 2) m.b.resize(m.p + 2);
                m.b[m.p] = (uint8_t)(m.wbe ? v >> 8 : v); m.b[m.p + 1] = (uint8_t)(m.wbe ? v : v >> 8);
                m.p += 2;
                break;
            }
            }
            if (blind && i + 1 < len) continue; // nothing but the operations' own results until the end
            same(mp, (double)s.ftell(), (double)m.p, "ftell");
            check(me, s.feof() == (m.p >= m.b.size()), "feof");
            if (!same(msz, (double)s.buffer().size(), (double)m.b.size(), "size")) break;
            mb.checks++;
            if (m.b.size() && memcmp(s.buffer().data(), m.b.data(), m.b.size()) != 0)
            {
                size_t q = 0;
                while (s.buffer()[q] == m.b[q]) q++;
                fail(mb, fmt("byte %zu of %zu is %02x, expected %02x", q, m.b.size(), s.buffer()[q], m.b[q]));
                break;
            }
        }
    }
    // long runs of one operation, byte by byte or block by block, from an empty stream and back
    Cls crun("runs of one operation", 20);
    for (long it = 0, runs = N(24); it < runs; it++)
    {
        MS s;
        std::vector<uint8_t> b;
        size_t len = (size_t)r.logf_(300, 90000), step = r.below(3) ? 1 : 1 + r.below(900);
        int how = r.below(4);
        crun();
        cur("run", {(double)len, (double)step, (double)how});
        if (how == 3) { b.assign(len, 0); s.put_at(len - 1, 0); s.seekTo(0); }
        for (size_t p = 0; p < len; p += step)
        {
            size_t k = std::min(step, len - p);
            if (how == 2 && b.size() < p + k) { b.resize(p + k); }
            for (size_t q = 0; q < k; q++)
            {
                uint8_t v = (uint8_t)(1 + r.below(255));
                if (p + q < b.size()) b[p + q] = v; else b.push_back(v);
                if (how == 1 || (how == 3 && step == 1)) s.putUint8(v);
                else if (how == 2) s.put_at(p + q, v);
            }
            if (how == 0 || (how == 3 && step > 1)) s.write(&b[p], k);
        }
        same(mp, (double)s.ftell(), how == 2 ? 0. : (double)len, "ftell after a run");
        same(msz, (double)s.buffer().size(), (double)b.size(), "size after a run");
        check(mb, s.buffer() == b, "contents after a run");
        s.seekTo(0);
        std::vector<uint8_t> back;
        std::vector<uint8_t> blk(step);
        for (size_t p = 0; p < len; p += step)
            if (how & 1) { size_t g = s.read(blk.data(), step); back.insert(back.end(), blk.begin(), blk.begin() + (long)std::min(g, step)); }
            else for (size_t q = 0; q < step && p + q < len; q++) back.push_back(s.getUint8());
        check(mv, back == b, "bytes read back after a run");
        check(me, s.feof(), "feof after a run");
    }
    cls("distinct (operation, next operation, at end, empty) situations", pairs.size());
}
