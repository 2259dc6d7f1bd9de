// C02: a reconstructed fragment is the one encoding produced.
#include "capi.h"
static void stripe(const Cfg& c, Inst& in, int mode, const std::vector<int>& miss, int dst, bool null)
{
    Frags d = gen(c, mode); Set s(c, in.p); s.data(d);
    if (s.encode(in.p, std::vector<int>(s.nout(), 1), false)) return; // header overflow: C04
    auto orig = s.all();
    for (int i = 0; i < c.k + c.m; i++) if (miss[i]) s.junk(i);
    auto before = s.all();
    int rc = s.reconstruct(in.p, miss, dst, null);
    CHECK(rc == 0, "reconstruct returns %d", rc);
    for (int i = 0; i < c.k + c.m; i++) {
        Bytes b = s.get(i); const Bytes& e = i == dst ? orig[i] : before[i];
        if (b != e) { size_t j = 0; while (b[j] == e[j]) j++; hx::fail(i == dst ? "fragment %d differs at %s byte %zu: got %d expected %d" : "fragment %d, not asked for, changed at %s byte %zu: got %d, was %d", i, j < (size_t)s.md ? "header" : "block", j < (size_t)s.md ? j : j - s.md, b[j], e[j]); }
    }
}
static void patterns(int ws)
{
    for (int sys : {0, 1}) for (int k = 1; k <= 4; k++) for (int m = 1; m <= 4; m++) {
        Cfg c{ws, k, m, sys, (size_t)ws * 21}; Inst in(c);
        for (unsigned e = 1; e < 1u << (k + m); e++) { if (__builtin_popcount(e) > m) continue;
            std::vector<int> miss(k + m); for (int i = 0; i < k + m; i++) miss[i] = e >> i & 1;
            for (int dst = 0; dst < k + m; dst++) if (miss[dst]) { int mode = (int)hx::R(7); hx::at("%s content=%d missing=%s destination=%d", D(c).c_str(), mode, hx::LST(miss).c_str(), dst); stripe(c, in, mode, miss, dst, hx::coin()); } }
    }
}
SEC(patterns8) { patterns(1); }
SEC(patterns16) { patterns(2); }
static void params(int n)
{
    for (int i = 0; i < n * hx::scale(); i++) { Cfg c = rcfg(6000); if (!c.m) continue; Inst in(c);
        for (int r = 0; r < 3; r++) { auto miss = erase(c.k + c.m, 1 + (int)hx::R(c.m)); std::vector<int> ds; for (int j = 0; j < c.k + c.m; j++) if (miss[j]) ds.push_back(j); int dst = ds[hx::R(ds.size())]; int mode = (int)hx::R(7);
            hx::at("%s content=%d missing=%s destination=%d", D(c).c_str(), mode, hx::LST(miss, 90).c_str(), dst); stripe(c, in, mode, miss, dst, hx::coin()); } }
}
SEC(random0) { params(60); }
SEC(random1) { params(60); }
SEC(longblocks) { for (int ws : {1, 2}) for (int sys : {0, 1}) for (int dst : {0, 4}) { Cfg c{ws, 3, 2, sys, 140000}; Inst in(c); std::vector<int> miss(5, 0); miss[dst] = 1; miss[2] = 1; hx::at("%s destination=%d", D(c).c_str(), dst); stripe(c, in, ws == 1 ? 6 : 0, miss, dst, true); } }
HX_MAIN
