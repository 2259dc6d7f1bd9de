// C07: prime-field and ring scalar arithmetic, real gf::RingModN / gf::Prime /
// gf::Field against 128-bit integer arithmetic.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
using hx::u128;
typedef uint64_t u64;

static const std::vector<u64> P16 = {2, 3, 5, 7, 257, 769, 12289, 32749, 32771, 65521};
static const std::vector<u64> P32 = {2, 3, 5, 17, 257, 65521, 65537, 65539, 2147483647ull, 2147483659ull, 3221225473ull, 4294967291ull};
static const std::vector<u64> P64 = {2, 3, 257, 65537, 4294967311ull, 2305843009213693951ull, 9223372036854775783ull, 9223372036854775837ull};

template <typename T, typename F> void ops(const F& g, u64 m, u64 a, u64 b, const char* w)
{
    hx::at("%s modulus %s a=%s b=%s", w, hx::SC(m), hx::SC(a), hx::SC(b));
    u64 r;
    r = (u64)g.add(a, b); CHECK(r == om::addm(a, b, m), "add=%s", hx::SC(r));
    r = (u64)g.sub(a, b); CHECK(r == om::subm(a, b, m), "sub=%s", hx::SC(r));
    r = (u64)g.mul(a, b); CHECK(r == om::mulm(a, b, m), "mul=%s", hx::SC(r));
    r = (u64)g.neg(a); CHECK(r == om::subm(0, a, m), "neg=%s", hx::SC(r));
    r = (u64)g.exp(a, b); CHECK(r == om::powm(a, b, m), "exp=%s", hx::SC(r));
    r = (u64)g.exp_quick(a, b); CHECK(r == om::powm(a, b, m), "exp_quick=%s", hx::SC(r));
    if (b < 300) { r = (u64)g.exp_naive(a, b); CHECK(r == om::powm(a, b, m), "exp_naive=%s", hx::SC(r)); }
    if (om::gcd(b, m) == 1 && b) {
        r = (u64)g.inv(b);
        CHECK(r < m && om::mulm(r, b, m) == 1 % m, "inv(b)=%s", hx::SC(r));
        r = (u64)g.inv_bezout(b);
        CHECK(r < m && om::mulm(r, b, m) == 1 % m, "inv_bezout(b)=%s", hx::SC(r));
        r = (u64)g.div(a, b);
        CHECK(r < m && om::mulm(r, b, m) == a, "div(a,b)=%s", hx::SC(r));
    }
    CHK(g.check(a) && g.card() == (T)m && g.card_minus_one() == (T)(m - 1));
    if (sizeof(T) * 8 > 64 || m >> (sizeof(T) * 8 - 1) < 1) CHK(!g.check((T)m));
}
template <typename T, typename F> void field(const F& g, u64 m, const char* w)
{
    std::vector<u64> pts;
    for (u64 d = 0; d < 5 && d < m; d++) { pts.push_back(d); pts.push_back(m - 1 - d); pts.push_back((m / 2 + d) % m); }
    for (int i = 0; i < (int)sizeof(T) * 8; i++) { u128 v = (u128)1 << i; for (int d = -1; d <= 1; d++) if (v + d < m) pts.push_back((u64)(v + d)); }
    if (m <= 260) { pts.clear(); for (u64 i = 0; i < m; i++) pts.push_back(i); }
    size_t cap = 60 * hx::scale();
    std::vector<u64> A = pts;
    if (m > 260) while (A.size() > cap) A.erase(A.begin() + hx::R(A.size()));
    for (u64 a : A) for (u64 b : (m > 260 ? A : pts)) ops<T>(g, m, a, b, w);
    for (int i = 0; i < 1500 * hx::scale(); i++) ops<T>(g, m, hx::R(m), hx::coin() ? hx::R(m) : hx::R() >> hx::R(64) & 0xffff % m, w);
}
template <typename T> void primes(const std::vector<u64>& L, const char* w)
{
    for (u64 p : L) {
        hx::at("%s Prime(%s)", w, hx::SC(p));
        auto g = gf::create<gf::Prime<T>>((T)p);
        field<T>(g, p, w);
        auto f = gf::create<gf::Field<T>>((T)p, 1);
        ops<T>(f, p, p - 1, p - 1, w);
        ops<T>(f, p, 1 % p, p - 1, w);
        CHK(f.get_p() == (T)p && f.get_n() == 1 && f.get_unit() == (T)1);
        for (u64 v : std::vector<u64>{1, 2, 3, 5, 6, 16, 17, 100}) {
            if (v >= p) continue;
            hx::at("%s get_inv_n_mod_p(%d) p=%s", w, (int)v, hx::SC(p));
            CHK(om::mulm((u64)f.get_inv_n_mod_p((int)v), v, p) == 1 % p);
        }
        // inv_exp needs a non-const object
        for (int i = 0; i < 20 && p > 2; i++) {
            u64 a = 1 + hx::R(p - 1);
            hx::at("%s inv_exp(%s) p=%s", w, hx::SC(a), hx::SC(p));
            CHK(om::mulm((u64)g.inv_exp((T)a), a, p) == 1 % p);
        }
    }
}
SEC(u16) { primes<uint16_t>({2, 3, 5, 257, 32771, 65521}, "uint16"); }
SEC(u32) { primes<uint32_t>(P32, "uint32"); }
SEC(u64) { primes<uint64_t>(P64, "uint64"); }
SEC(u128) { primes<__uint128_t>({3, 257, 65537, 4294967311ull, 2305843009213693951ull}, "uint128"); }
SEC(all_small) {
    // every pair of operands for every prime below 60 (and all of GF(257) above)
    for (u64 p = 2; p < 60; p++) if (om::prime(p)) { auto g = gf::create<gf::Prime<uint32_t>>((uint32_t)p); for (u64 a = 0; a < p; a++) for (u64 b = 0; b < p; b++) ops<uint32_t>(g, p, a, b, "small"); }
}
// rings of composite modulus: only possible through RingModN's derived create
template <typename T> struct Ring : gf::RingModN<T> { explicit Ring(T c) : gf::RingModN<T>(c) {} };
SEC(rings) {
    for (u64 m : std::vector<u64>{4, 6, 9, 15, 256, 65535, 65536, 1000003, 4294967295u}) {
        Ring<uint32_t> g((uint32_t)m);
        field<uint32_t>(g, m, "ring32");
    }
    for (u64 m : std::vector<u64>{(u64)4294967296ull, (u64)1 << 63, ~(u64)0}) { Ring<uint64_t> g(m); field<uint64_t>(g, m, "ring64"); }
}
SEC(inverse_all) {
    auto g = gf::create<gf::Prime<uint32_t>>(65537);
    for (u64 a = 1; a < 65537; a++) { hx::at("inv(%s) mod 65537", hx::SC(a)); u64 r = g.inv(a); CHECK(r < 65537 && r * a % 65537 == 1, "inv=%s", hx::SC(r)); CHK(g.div(1, a) == r); }
}
SEC(logs) {
    for (u64 p : std::vector<u64>{3, 5, 7, 17, 257, 65521}) {
        auto g = gf::create<gf::Prime<uint32_t>>((uint32_t)p);
        for (int i = 0; i < (p < 20 ? 400 : p < 300 ? 300 : 12); i++) {
            u64 a = p < 20 ? i / 20 % p : hx::R(p), b = p < 20 ? i % 20 % p : hx::R(p);
            hx::at("log base %s of %s mod %s", hx::SC(a), hx::SC(b), hx::SC(p));
            bool have = false; u64 x = 1;
            for (u64 e = 1; e < p && !have; e++) { x = om::mulm(x, a, p); have = x == b; }
            bool got = true; u64 r = 0;
            try { r = g.log(a, b); } catch (const NoSolution&) { got = false; }
            CHECK(got == have, "solution %s, refused %d", have ? "exists" : "does not exist", !got);
            if (got) CHECK(om::powm(a, r, p) == b, "log=%s", hx::SC(r));
        }
    }
}
HX_MAIN
