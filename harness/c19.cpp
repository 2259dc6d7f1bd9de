// C19: records of special symbols and their storage.
#include "common.h"
#include "quadiron.h"
#include <arpa/inet.h>
using namespace quadiron;
typedef std::vector<std::pair<size_t, uint32_t>> M;
static std::string D(const M& m) { std::string s; for (size_t i = 0; i < m.size() && i < 20; i++) s += "(" + hx::S(m[i].first) + "," + hx::S(m[i].second) + ")"; return s; }
static void is(const Properties& p, const M& m, const char* w) { if (p.get_map() != m) hx::fail("%s: got %s expected %s", w, D(p.get_map()).c_str(), D(m).c_str()); }
static size_t loc() { switch (hx::R(6)) { case 0: return hx::R(4); case 1: return 0xffffffffu - hx::R(3); case 2: return 0x80000000u + hx::R(2); default: return hx::R(1u << hx::R(32)); } }
static void header(size_t n, unsigned cap, int sorted)
{
    Properties p; M m; size_t l = hx::R(3);
    for (size_t i = 0; i < n; i++) { if (sorted) { l += 1 + hx::R(100); } else l = loc(); m.push_back({l, OOR_MARK}); p.add(l, OOR_MARK); }
    hx::at("header of %u dwords, %zu records %s", cap, n, D(m).c_str());
    is(p, m, "added records");
    hx::Guarded<uint32_t> h(cap, 4); for (unsigned i = 0; i < cap; i++) h[i] = 0xdeadbeef;
    int rc = p.fnt_serialize(h.p(), cap);
    CHECK(h.intact(), "fnt_serialize wrote outside of the header"); is(p, m, "record after writing it");
    if (n + 2 > cap) { CHECK(rc == -1, "writing %zu records in %u dwords returns %d", n, cap, rc); return; }
    CHECK(rc == 0, "writing returns %d", rc);
    CHECK(ntohl(h[0]) == 0x464E5431 && ntohl(h[1]) == n, "magic or count wrong");
    for (unsigned i = 2; i < cap; i++) CHECK(ntohl(h[i]) == (i - 2 < n ? m[i - 2].first : 0), "header dword %u is %u", i, ntohl(h[i]));
    std::vector<uint32_t> cp(h.p(), h.p() + cap);
    Properties q; CHECK(q.fnt_deserialize(h.p(), cap) == 0, "reading back fails"); is(q, m, "records read back"); CHK(std::equal(cp.begin(), cp.end(), h.p()) && h.intact());
    if (n + 2 < cap) { Properties z; CHK(z.fnt_deserialize(h.p(), (unsigned)n + 2) == 0); is(z, m, "records read back from the used part"); }
    if (n) { Properties z; CHECK(z.fnt_deserialize(h.p(), (unsigned)n + 1) == -1, "a header with a count larger than it is accepted"); is(z, M(), "records of a refused header"); }
    h[0] ^= htonl(1u << hx::R(32)); { Properties z; CHECK(z.fnt_deserialize(h.p(), cap) == -1, "a bad magic is accepted"); is(z, M(), "records of a refused header"); }
}
SEC(headers)
{
    for (int r = 0; r < 20 * hx::scale(); r++) for (unsigned cap : {2u, 3u, 4u, 5u, 8u, 16u, 64u, 257u}) for (size_t n : {(size_t)0, (size_t)1, (size_t)cap - 2, (size_t)cap - 1, (size_t)cap, (size_t)hx::R(cap)}) header(n, cap, r & 1);
    for (unsigned cap : {0u, 1u}) for (size_t n : {0, 1, 2}) header(n, cap, 1);
}
SEC(illformed)
{
    for (unsigned cap : {0u, 1u, 2u, 3u, 4u, 10u, 100u}) {
        for (int i = 0; i < 200; i++) {
            hx::Guarded<uint32_t> h(cap, 4); for (unsigned j = 0; j < cap; j++) h[j] = (uint32_t)hx::R();
            if (cap) h[0] = htonl(0x464E5431);
            uint32_t cnt = 0;
            if (cap > 1) { uint32_t c[] = {cap - 2, cap - 1, cap, cap + 1, 0xffffffffu, 0xfffffffeu, 0xfffffffdu, 0x80000000u, 0x3fffffffu, 0x40000000u, (uint32_t)hx::R(), 0}; cnt = c[hx::R(12)]; h[1] = htonl(cnt); }
            hx::at("header of %u dwords announcing %u records", cap, cnt);
            Properties p; int rc = p.fnt_deserialize(h.p(), cap); bool ok = cap >= 2 && cnt <= cap - 2;
            CHECK(rc == (ok ? 0 : -1), "returns %d", rc); M m; if (ok) for (unsigned j = 0; j < cnt; j++) m.push_back({ntohl(h[j + 2]), OOR_MARK}); is(p, m, "records");
        }
    }
}
SEC(text)
{
    for (int r = 0; r < 300 * hx::scale(); r++) {
        int n = (int)hx::R(12); Properties p; M m;
        for (int i = 0; i < n; i++) { size_t l = hx::coin(4) ? (size_t)hx::R() : loc(); uint32_t k = hx::coin(3) ? OOR_MARK : hx::coin(4) ? 0xffffffffu : (uint32_t)hx::R(); m.push_back({l, k}); p.add(l, k); }
        hx::at("text form of %s", D(m).c_str());
        std::ostringstream os; os << p; is(p, m, "record after writing it as text");
        std::istringstream in(os.str()); Properties q; in >> q; is(q, m, "records read back from text");
        // comments and blank lines are ignored
        std::string t; std::istringstream l2(os.str()); std::string ln; while (std::getline(l2, ln)) { t += hx::coin() ? "# c = 4\n" : hx::coin() ? "\n  \t\n" : ""; t += (hx::coin() ? "  " : "") + ln + (hx::coin() ? "  " : "") + "\n"; }
        std::istringstream in2(t + (hx::coin() ? "; 1 = 2\n" : "")); Properties q2; in2 >> q2; is(q2, m, "records read back from commented text");
    }
}
SEC(lookups)
{
    for (int r = 0; r < 300 * hx::scale(); r++) {
        int n = (int)hx::R(10); Properties p; M m;
        for (int i = 0; i < n; i++) { size_t l = hx::R(20); uint32_t k = (uint32_t)hx::R(4); m.push_back({l, k}); p.add(l, k); }
        hx::at("look-ups in %s", D(m).c_str());
        for (int pass = 0; pass < 2; pass++) {
            for (size_t i = 0; i < (size_t)n + 3; i++) {
                CHECK(p.location(i) == (i < (size_t)n ? m[i].first : 0), "location(%zu)", i); CHECK(p.marker(i) == (i < (size_t)n ? m[i].second : 0), "marker(%zu)", i);
                for (size_t l = 0; l < 22; l++) { CHECK(p.is_marked(i, l) == (i < (size_t)n && m[i].first == l), "is_marked(%zu,%zu)", i, l);
                    for (size_t h = 0; h < 22; h++) CHECK(p.in_range(i, l, h) == (i < (size_t)n && m[i].first >= l && m[i].first < h), "in_range(%zu,%zu,%zu)", i, l, h); }
            }
            CHK(!p.is_marked((size_t)-1, 0) && !p.in_range((size_t)-1, 0, 100));
            p.sort(); std::sort(m.begin(), m.end()); is(p, m, "sorted record");
        }
        Properties c(p); c.add(5, 6); is(p, m, "record after changing a copy"); p.clear(); is(p, M(), "cleared record");
    }
}
HX_MAIN
