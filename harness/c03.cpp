// C03: FNT fragments are the values of the data polynomial; special symbols
// are recorded exactly. The same oracle is used on every build, so builds
// that pass it produce the same bytes.
#include "capi.h"
static void stripe(const Cfg& c, Inst& in, int mode, std::vector<int> want, bool null)
{
    Frags d = gen(c, mode); Set s(c, in.p); s.data(d); auto before = s.all();
    Frags e; bool fits = Oracle(c).all(c, d, s.md, e);
    int rc = s.encode(in.p, want, null);
    if (!fits) { CHECK(rc == -1 || std::count(want.begin(), want.end(), 0), "encoding returns %d although the records do not fit", rc); return; }
    CHECK(rc == 0, "encoding returns %d", rc);
    for (int j = 0; j < c.k + c.m; j++) {
        Bytes b = s.get(j), x = e[j];
        int w = c.sys ? j - c.k : j;
        if (w >= 0 && !want[w]) { if (j >= c.k) x = before[j]; else std::copy(before[j].begin() + s.md, before[j].end(), x.begin() + s.md); }
        if (b != x) { size_t q = 0; while (b[q] == x[q]) q++; hx::fail("fragment %d differs at %s byte %zu: got %d expected %d", j, q < (size_t)s.md ? "header" : "block", q < (size_t)s.md ? q : q - s.md, b[q], x[q]); }
    }
}
static void small(int ws)
{
    for (int sys : {0, 1}) for (int k = 1; k <= 9; k++) for (int m : {0, 1, 2, 3, 5, 8}) for (int mode = 0; mode < 7; mode++) {
        Cfg c{ws, k, m, sys, (size_t)ws * (1 + hx::R(60))}; Inst in(c); hx::at("%s content=%d", D(c).c_str(), mode); stripe(c, in, mode, std::vector<int>(sys ? m : k + m, 1), false);
    }
}
SEC(small8) { small(1); }
SEC(small16) { small(2); }
static void params(int n)
{
    for (int i = 0; i < n * hx::scale(); i++) { Cfg c = rcfg(6000); Inst in(c); int mode = (int)hx::R(7); std::vector<int> want(c.sys ? c.m : c.k + c.m, 1); if (hx::coin()) for (auto& w : want) w = (int)hx::R(2);
        hx::at("%s content=%d wanted=%s", D(c).c_str(), mode, hx::LST(want, 90).c_str()); stripe(c, in, mode, want, true); }
}
SEC(random0) { params(120); }
SEC(random1) { params(120); }
// each symbol position of one word value: the special value at every position
SEC(positions)
{
    for (int ws : {1, 2}) for (int sys : {0, 1}) { Cfg c{ws, 2, 3, sys, (size_t)ws * 1041}; Inst in(c); Oracle o(c); auto M = o.matrix(c);
        for (int r = 0; r < 25; r++) {
            Frags d(c.k, Bytes(c.bs, 0)); std::vector<size_t> ps; int cnt = 1 + (int)hx::R(10); for (int i = 0; i < cnt; i++) ps.push_back(r < 12 && i == 0 ? (size_t[]){0, 7, 8, 15, 16, 1023, 1024, 1039, 1040, 1031, 1032, 512}[r] : hx::R(1041));
            int j = c.sys ? c.k + (int)hx::R(c.m) : (int)hx::R(c.k + c.m);
            for (size_t t : ps) { // M[j][0] a + M[j][1] b = -1
                for (int tries = 0; tries < 50; tries++) { uint32_t b = (uint32_t)hx::R(o.F); uint64_t a = (o.F + (uint64_t)(o.p - M[j][1]) * b) % o.p * om::powm(M[j][0], o.p - 2, o.p) % o.p; if (a < o.F) { sw(&d[0][t * ws], ws, (uint32_t)a); sw(&d[1][t * ws], ws, b); break; } }
            }
            hx::at("%s special value in fragment %d at positions %s", D(c).c_str(), j, hx::LST(ps).c_str());
            Set s(c, in.p); s.data(d); Frags e; if (!o.all(c, d, s.md, e)) continue; CHK(s.encode(in.p, std::vector<int>(s.nout(), 1), false) == 0);
            for (int z = 0; z < c.k + c.m; z++) CHECK(s.get(z) == e[z], "fragment %d is wrong", z);
        } }
}
HX_MAIN
