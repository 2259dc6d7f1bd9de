// C04: the C API refuses bad input and stays inside the caller's buffers.
// (buffers have guard zones, entries that may be null are null, and the
// sanitizers watch every access)
#include "capi.h"
SEC(construct)
{
    for (int ws : {-1, 0, 3, 4, 5, 8, 16, 100}) for (int sys : {0, 1}) { hx::at("new word_size=%d", ws); CHECK(quadiron_fnt32_new(ws, 3, 2, sys) == nullptr, "an unsupported word size is accepted"); }
    quadiron_fnt32_delete(nullptr);
    for (size_t bs : {0, 1, 2, 1000, 65535, 65536, 131072, 10000000}) { hx::at("metadata size for %zu", bs); Cfg c{2, 2, 1, 1, bs}; Inst in(c); int md = quadiron_fnt32_get_metadata_size(in.p, bs); CHECK(md == (int)((bs / 65536 + 16) * 4), "metadata size is %d", md); }
}
// inputs unmodified, unwanted untouched
static void wanted(int n)
{
    for (int i = 0; i < n * hx::scale(); i++) {
        Cfg c = rcfg(5000); Inst in(c); int mode = (int)hx::R(7); Frags d = gen(c, mode); Set s(c, in.p, hx::R(8)); s.data(d); std::vector<int> want(s.nout()); for (auto& w : want) w = (int)hx::R(2);
        if (hx::coin(4)) std::fill(want.begin(), want.end(), 0);
        hx::at("encode %s content=%d wanted=%s", D(c).c_str(), mode, hx::LST(want, 90).c_str());
        auto before = s.all(); int rc = s.encode(in.p, want, true);
        for (int j = 0; j < c.k + c.m; j++) {
            int w = c.sys ? j - c.k : j; Bytes b = s.get(j);
            if (w < 0) CHECK(std::equal(b.begin() + s.md, b.end(), before[j].begin() + s.md), "data block %d modified", j);
            else if (!want[w]) { if (j < c.k) CHECK(std::equal(b.begin() + s.md, b.end(), before[j].begin() + s.md), "unwanted block %d modified", j); else CHECK(b == before[j], "unwanted fragment %d modified", j); }
        }
        (void)rc;
    }
}
SEC(wanted) { wanted(120); }
// with too few fragments every call refuses and changes nothing but scratch
static void few(int n)
{
    for (int i = 0; i < n * hx::scale(); i++) {
        Cfg c = rcfg(3000); Inst in(c); int mode = (int)hx::R(7); Frags d = gen(c, mode); Set s(c, in.p); s.data(d);
        if (s.encode(in.p, std::vector<int>(s.nout(), 1), false)) continue;
        int extra = 1 + (int)hx::R(c.k); auto miss = erase(c.k + c.m, c.m + extra);
        hx::at("%s content=%d missing=%s", D(c).c_str(), mode, hx::LST(miss, 90).c_str());
        auto before = s.all();
        CHECK(s.decode(in.p, miss, true) == -1, "decoding from %d fragments is not refused", c.k - extra);
        std::vector<int> ds; for (int j = 0; j < c.k + c.m; j++) if (miss[j]) ds.push_back(j);
        int dst = ds[hx::R(ds.size())];
        CHECK(s.reconstruct(in.p, miss, dst, true) == -1, "reconstructing fragment %d from %d fragments is not refused", dst, c.k - extra);
        for (int j = 0; j < c.k + c.m; j++) if (!miss[j]) CHECK(s.get(j) == before[j], "a refused call modified fragment %d", j);
    }
}
SEC(toofew) { few(80); }
// ill-formed headers are refused by every call that has to read them; well
// formed ones with arbitrary positions are followed inside the buffers
static void headers(int n)
{
    for (int i = 0; i < n * hx::scale(); i++) {
        Cfg c = rcfg(3000); if (!c.m) continue; Inst in(c); Frags d = gen(c, (int)hx::R(7)); Set s(c, in.p); s.data(d);
        if (s.encode(in.p, std::vector<int>(s.nout(), 1), false)) continue;
        auto miss = erase(c.k + c.m, 1 + (int)hx::R(c.m)); std::vector<int> av, ds; for (int j = 0; j < c.k + c.m; j++) if (!miss[j]) { if (!c.sys || j >= c.k) av.push_back(j); } else ds.push_back(j);
        if (av.empty()) continue;
        if (c.sys) { bool lost = false; for (int j = 0; j < c.k; j++) lost |= miss[j]; if (!lost) continue; }
        int v = av[hx::R(av.size())], kind = (int)hx::R(4); uint32_t* h = (uint32_t*)s.f[v]->p(); uint32_t cap = (uint32_t)s.md / 4, cnt = 0;
        if (kind == 0) h[0] ^= htonl(1u << hx::R(32));
        if (kind == 1) { uint32_t bad[] = {cap - 1, cap, cap + 1, 0xffffffffu, 0xfffffffeu, 0xfffffffdu, 0x7fffffffu, 0x80000000u, (uint32_t)hx::R() | cap}; cnt = bad[hx::R(9)]; h[1] = htonl(cnt); }
        if (kind == 2) { for (uint32_t j = 0; j < cap; j++) h[j] = (uint32_t)hx::R(); if (ntohl(h[0]) == 0x464E5431) h[0] = 0; }
        bool ok = kind == 3;
        if (ok) { cnt = (uint32_t)hx::R(cap - 1); h[1] = htonl(cnt); for (uint32_t j = 2; j < cap; j++) h[j] = htonl(hx::coin() ? (uint32_t)hx::R(c.bs + 2) : (uint32_t)hx::R()); }
        hx::at("%s missing=%s fragment %d header kind %d count %u", D(c).c_str(), hx::LST(miss, 90).c_str(), v, kind, cnt);
        auto before = s.all(); int dst = ds[hx::R(ds.size())];
        int rc = s.reconstruct(in.p, miss, dst, true);
        for (int j = 0; j < c.k + c.m; j++) if (j != dst) CHECK(s.get(j) == before[j], "reconstruct modified fragment %d", j);
        if (!ok) CHECK(rc == -1, "reconstruct accepts an ill-formed header (fragment %d)", v);
        for (int j = c.k; j < c.k + c.m; j++) if (j == dst) s.put(j, before[j]);
        if (dst < c.k) s.put(dst, before[dst]);
        rc = s.decode(in.p, miss, true);
        for (int j = c.k; j < c.k + c.m; j++) CHECK(s.get(j) == before[j], "decode modified parity fragment %d", j);
        if (!ok) CHECK(rc == -1, "decode accepts an ill-formed header (fragment %d)", v);
    }
}
SEC(headers0) { headers(120); }
SEC(headers1) { headers(120); }
// special symbols that do not fit the header
SEC(overflow)
{
    for (int ws : {1, 2}) for (int sys : {0, 1}) for (int r = 0; r < 12 * hx::scale(); r++) {
        Cfg c{ws, 1 + (int)hx::R(5), 1 + (int)hx::R(4), sys, (size_t)ws * (40 + hx::R(2000))}; Inst in(c); Oracle o(c); auto M = o.matrix(c);
        int j = c.sys ? c.k + (int)hx::R(c.m) : (int)hx::R(c.k + c.m); Set s(c, in.p); int cap = s.md / 4 - 2, cnt = cap - 1 + (int)hx::R(4); if (hx::coin(4)) cnt = (int)(c.bs / ws);
        if ((size_t)cnt > c.bs / ws) cnt = (int)(c.bs / ws);
        Frags d(c.k, Bytes(c.bs, 0)); std::vector<int> pos(c.bs / ws); for (size_t i = 0; i < pos.size(); i++) pos[i] = (int)i; std::shuffle(pos.begin(), pos.end(), hx::rng());
        int made = 0;
        for (int z = 0; z < cnt; z++) { size_t t = pos[z]; for (int tries = 0; tries < 50; tries++) { uint64_t acc = 0; for (int i = 1; i < c.k; i++) { uint32_t b = (uint32_t)hx::R(o.F); sw(&d[i][t * ws], ws, b); acc += (uint64_t)M[j][i] * b % o.p; } uint64_t a = (o.F + o.p - acc % o.p) % o.p * om::powm(M[j][0], o.p - 2, o.p) % o.p; if (a < o.F) { sw(&d[0][t * ws], ws, (uint32_t)a); made++; break; } } }
        Frags e; bool fits = o.all(c, d, s.md, e); s.data(d); auto before = s.all();
        hx::at("%s: %d special symbols in fragment %d, header holds %d", D(c).c_str(), made, j, cap);
        int rc = s.encode(in.p, std::vector<int>(s.nout(), 1), false);
        CHECK(rc == (fits ? 0 : -1), "encoding returns %d", rc);
        if (c.sys) for (int z = 0; z < c.k; z++) CHECK(s.block(z) == d[z], "data block %d modified", z);
    }
}
HX_MAIN
