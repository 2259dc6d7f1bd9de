// C01: any n_data intact fragments recover the data (public C API).
#include "capi.h"
static uint64_t overflowed = 0;
static bool round_trip(const Cfg& c, Inst& in, int mode, const std::vector<int>& miss, size_t skew, bool null)
{
    Frags d = gen(c, mode);
    Set s(c, in.p, skew); s.data(d);
    std::vector<int> want(s.nout(), 1);
    int rc = s.encode(in.p, want, null);
    if (rc) { Frags f; bool fits = Oracle(c).all(c, d, s.md, f); CHECK(rc == -1 && !fits, "encoding returns %d although every record fits", rc); overflowed++; return false; }
    for (int i = 0; i < c.k + c.m; i++) if (miss[i]) s.junk(i);
    auto before = s.all();
    rc = s.decode(in.p, miss, null);
    CHECK(rc == 0, "decoding returns %d", rc);
    for (int i = 0; i < c.k; i++) { Bytes b = s.block(i); if (b != d[i]) { size_t j = 0; while (b[j] == d[i][j]) j++; hx::fail("data fragment %d differs at byte %zu: got %d expected %d", i, j, b[j], d[i][j]); } }
    for (int i = c.k; i < c.k + c.m; i++) CHECK(s.get(i) == before[i], "decoding changed parity fragment %d", i - c.k);
    return true;
}
static void run(const Cfg& c, int mode, const std::vector<int>& miss, size_t skew, bool null)
{
    hx::at("%s content=%d missing=%s", D(c).c_str(), mode, hx::LST(miss, 90).c_str());
    Inst in(c); round_trip(c, in, mode, miss, skew, null);
}
// every erasure pattern of the small codes
static void patterns(int ws)
{
    for (int sys : {0, 1}) for (int k = 1; k <= 5; k++) for (int m = 0; m <= 4; m++) {
        Cfg c{ws, k, m, sys, (size_t)ws * 37}; Inst in(c);
        for (unsigned e = 0; e < 1u << (k + m); e++) { if (__builtin_popcount(e) > m) continue;
            std::vector<int> miss(k + m); for (int i = 0; i < k + m; i++) miss[i] = e >> i & 1;
            int mode = (int)hx::R(7); hx::at("%s content=%d missing=%s", D(c).c_str(), mode, hx::LST(miss).c_str());
            round_trip(c, in, mode, miss, 0, e & 1); }
    }
}
SEC(patterns8) { patterns(1); }
SEC(patterns16) { patterns(2); }
static void params(int n) { for (int i = 0; i < n * hx::scale(); i++) { Cfg c = rcfg(6000); run(c, (int)hx::R(7), erase(c.k + c.m, hx::coin(3) ? (int)hx::R(c.m + 1) : c.m), hx::R(8), hx::coin()); } }
SEC(random0) { params(150); }
SEC(random1) { params(150); }
// the instance is reused for many stripes
SEC(reuse)
{
    for (int i = 0; i < 12 * hx::scale(); i++) { Cfg c = rcfg(5000); Inst in(c);
        for (int r = 0; r < 6; r++) { c.bs = (size_t)c.ws * hx::R(2600); if (c.k + c.m > 30) c.bs %= 600; c.bs -= c.bs % c.ws; auto miss = erase(c.k + c.m, (int)hx::R(c.m + 1)); int mode = (int)hx::R(7); hx::at("stripe %d: %s content=%d missing=%s", r, D(c).c_str(), mode, hx::LST(miss, 90).c_str()); round_trip(c, in, mode, miss, 0, true); } }
}
// largest parameters: the transform length reaches the group order (8 bits)
SEC(large)
{
    for (int sys : {0, 1}) for (auto km : std::vector<std::pair<int, int>>{{100, 156}, {127, 129}, {64, 192}, {1, 255}, {128, 100}, {120, 9}}) { if (2 * km.first >= 257) continue; Cfg c{1, km.first, km.second, sys, 65}; run(c, 0, erase(c.k + c.m, c.m), 0, true); }
    for (int sys : {0, 1}) for (auto km : std::vector<std::pair<int, int>>{{200, 100}, {300, 212}, {3, 600}}) { Cfg c{2, km.first, km.second, sys, 66}; run(c, (int)hx::R(7), erase(c.k + c.m, c.m), 0, true); }
}
SEC(longblocks) { for (int ws : {1, 2}) for (int sys : {0, 1}) { Cfg c{ws, 3, 2, sys, 200000}; run(c, ws == 1 ? 2 : 0, erase(5, 2), 0, true); Cfg e{ws, 3, 2, sys, 140002}; run(e, 6, erase(5, 2), 0, true); } }
HX_MAIN
