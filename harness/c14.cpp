// C14: generators, element orders, roots of unity and code lengths.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
using hx::u128; using hx::SC;
typedef uint64_t u64;
// group of order h with oracle multiplication
struct Grp { u128 h; std::map<u128, int> f; std::function<u128(u128, u128)> mul; 
    u128 pow(u128 a, u128 e) const { u128 r = 1; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; }
    u128 order(u128 a) const { u128 o = h; for (auto& pe : f) for (int i = 0; i < pe.second; i++) { if (pow(a, o / pe.first) == 1) o /= pe.first; else break; } return o; } };
static Grp zp(u64 p) { Grp g; g.h = p - 1; for (auto& x : om::factor(p - 1)) g.f[x.first] = x.second; g.mul = [p](u128 a, u128 b) { return (u128)om::mulm((u64)a, (u64)b, p); }; return g; }
static Grp bin(int n)
{
    Grp g; u128 msk = n == 128 ? ~(u128)0 : ((u128)1 << n) - 1; g.h = msk;
    u128 p = n == 1 ? 1 : n <= 4 ? 3 : n == 8 ? 0x1d : n == 16 ? 0x100b : n == 32 ? 0x8d : n == 64 ? 0x1b : 0x87;
    if (n <= 64) for (auto& x : om::factor((u64)msk)) g.f[x.first] = x.second;
    else for (u64 q : std::vector<u64>{3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721ull}) g.f[q] = 1;
    g.mul = [n, p, msk](u128 a, u128 b) { u128 r = 0; for (int i = n - 1; i >= 0; i--) { bool c = r >> (n - 1) & 1; r = (r << 1) & msk; if (c) r ^= p; if (b >> i & 1) r ^= a; } return r; };
    return g;
}
template <typename T, typename F> void field(const F& f, const Grp& g, const char* w)
{
    hx::at("%s generator", w);
    u128 r = f.get_root();
    CHECK(r != 0 && g.order(r) == g.h, "root %s has order %s, group order %s", SC(r), SC(g.order(r)), SC(g.h));
    CHK((u128)f.get_primitive_root() == r); CHK((u128)f.card_minus_one() == g.h);
    std::vector<u128> xs; 
    if (g.h <= 300) for (u128 x = 1; x <= g.h; x++) xs.push_back(x);
    else { xs = {1, 2, 3, g.h, g.h - 1, r}; for (int i = 0; i < 25 * hx::scale(); i++) xs.push_back(1 + ((u128)hx::R() << 64 | hx::R()) % g.h);
        for (auto& pe : g.f) { u128 d = 1; for (int i = 0; i < pe.second; i++) { d *= pe.first; xs.push_back(g.pow(r, g.h / d)); xs.push_back(g.pow(r, d)); xs.push_back(g.pow(r, d % g.h * (1 + hx::R(5)))); } } }
    for (u128 x : xs) {
        hx::at("%s order of %s", w, SC(x));
        u128 o = g.order(x), got = f.get_order((T)x);
        CHECK(got == o, "get_order=%s, order is %s", SC(got), SC(o));
        CHECK(f.check_primitive_root((T)x) == (o == g.h), "check_primitive_root");
        CHECK(f.is_primitive_root((T)x) == (o == g.h), "is_primitive_root");
        if (o < 3000) { CHECK(f.check_order_naive((T)x, (T)o), "check_order_naive"); if (o > 1) CHECK(!f.check_order_naive((T)x, (T)(o - 1)), "check_order_naive o-1"); CHECK(2 * o > g.h || !f.check_order_naive((T)x, (T)(2 * o)), "check_order_naive 2o"); }
    }
    // every divisor of the group order
    std::set<u128> ds; ds.insert(1); for (auto& pe : g.f) { std::set<u128> e; u128 k = 1; for (int i = 0; i <= pe.second; i++) { for (u128 v : ds) e.insert(v * k); k *= pe.first; } ds = e; }
    std::vector<u128> dv(ds.begin(), ds.end());
    if (dv.size() > 120) { std::vector<u128> s; for (size_t i = 0; i < dv.size(); i += 1 + dv.size() / 60) s.push_back(dv[i]); dv = s; }
    for (u128 d : dv) {
        hx::at("%s get_nth_root(%s)", w, SC(d));
        u128 x = f.get_nth_root((T)d);
        CHECK(x != 0 && g.order(x) == d, "root %s has order %s", SC(x), SC(g.order(x)));
        if (d <= 600) { int n = (int)d; vec::Vector<T> W(f, n); f.compute_omegas(W, n, (T)x); for (int i = 0; i < n; i++) CHECK((u128)W.get(i) == g.pow(x, i), "compute_omegas[%d]", i); }
    }
    for (int i = 0; i < 30; i++) { // root of arbitrary n: order gcd(n, h)
        u128 n = 1 + ((u128)hx::R() << 64 | hx::R()) % (g.h < 5000 ? g.h : 5000);
        hx::at("%s get_nth_root(%s)", w, SC(n));
        u128 a = n, b = g.h; while (b) { u128 t = a % b; a = b; b = t; }
        CHECK(g.order((u128)f.get_nth_root((T)n)) == a, "order");
    }
}
SEC(prime32) {
    for (u64 p = 3; p < 400; p++) if (om::prime(p)) { auto f = gf::create<gf::Prime<uint32_t>>((uint32_t)p); char b[40]; sprintf(b, "GF(%d)", (int)p); field<uint32_t>(f, zp(p), b); }
    for (u64 p : std::vector<u64>{65537, 65521, 12289, 7681, 40961, 786433, 5767169, 2147483647, 4294967291ull, 3221225473ull}) { auto f = gf::create<gf::Prime<uint32_t>>((uint32_t)p); char b[40]; sprintf(b, "GF(%llu)", (unsigned long long)p); field<uint32_t>(f, zp(p), b); }
}
SEC(prime64) { for (u64 p : std::vector<u64>{2, 3, 257, 65537, 4294967311ull, 2305843009213693951ull, 4179340454199820289ull}) { auto f = gf::create<gf::Prime<u64>>(p); field<u64>(f, zp(p), "64-bit prime field"); } }
SEC(bin32) { for (int n : {2, 3, 4, 8, 16, 32}) { auto f = gf::create<gf::BinExtension<uint32_t>>((uint32_t)n); field<uint32_t>(f, bin(n), "GF(2^n) 32"); } }
SEC(bin64) { for (int n : {4, 8, 16, 32, 64}) { auto f = gf::create<gf::BinExtension<u64>>((u64)n); field<u64>(f, bin(n), "GF(2^n) 64"); } }
SEC(bin128) { for (int n : {8, 128}) { auto f = gf::create<gf::BinExtension<__uint128_t>>((__uint128_t)n); field<__uint128_t>(f, bin(n), "GF(2^n) 128"); } }
SEC(nf4) {
    auto f = gf::create<gf::NF4<u64>>(2u);
    auto g = zp(65537);
    for (int d = 0; d <= 16; d++) { hx::at("NF4 nth root 2^%d", d); u64 w = f.get_nth_root(1ull << d); CHK((w >> 32) == (w & 0xffffffff)); CHK(g.order(w & 0xffffffff) == (1u << d)); }
    CHK(g.order(f.get_sub_field().get_root()) == 65536);
}
SEC(quad) { for (u64 p : std::vector<u64>{3, 5, 7, 17, 97, 257}) { auto f = gf::create<gf::Prime<uint32_t>>((uint32_t)p); for (u64 q = 0; q < p; q++) { hx::at("is_quadratic_residue(%d) mod %d", (int)q, (int)p); bool w = false; for (u64 i = 0; i < p; i++) w = w || i * i % p == q; CHK(f.is_quadratic_residue((uint32_t)q) == w); } } }
template <typename T, typename F> void clen(const F& f, u64 h, u64 n, const char* w)
{
    hx::at("%s code length for %s", w, SC(n));
    u64 c = (u64)f.get_code_len((T)n);
    CHECK(c && h % c == 0 && c >= n, "get_code_len=%s", SC(c));
    if (h % n == 0) CHECK(c == n, "get_code_len=%s although the request divides the order", SC(c));
    u64 cc = (u64)f.get_code_len_high_compo((T)n);
    CHECK(cc && h % cc == 0 && cc >= n, "get_code_len_high_compo=%s", SC(cc));
}
SEC(codelen) {
    for (u64 p : std::vector<u64>{5, 7, 17, 97, 257, 331, 2311}) { auto f = gf::create<gf::Prime<uint32_t>>((uint32_t)p); for (u64 n = 1; n < p; n++) clen<uint32_t>(f, p - 1, n, "prime"); }
    for (u64 p : std::vector<u64>{65537, 65521, 65539, 30031}) { if (!om::prime(p)) continue; auto f = gf::create<gf::Prime<uint32_t>>((uint32_t)p); for (int i = 0; i < 400; i++) clen<uint32_t>(f, p - 1, 1 + hx::R(p - 1), "prime"); clen<uint32_t>(f, p - 1, p - 1, "prime"); clen<uint32_t>(f, p - 1, p - 2, "prime"); }
    for (int n : {4, 8, 16}) { auto f = gf::create<gf::BinExtension<uint32_t>>((uint32_t)n); u64 h = (1ull << n) - 1; for (int i = 0; i < 255; i++) clen<uint32_t>(f, h, n == 16 ? 1 + hx::R(h) : 1 + i % h, "binary"); }
    for (int n : {8, 32}) { auto f = gf::create<gf::BinExtension<u64>>((u64)n); u64 h = (1ull << n) - 1; for (int i = 0; i < 100; i++) clen<u64>(f, h, 1 + hx::R(h < 100000 ? h : 100000), "binary64"); }
    // free functions on arbitrary orders
    for (uint32_t h = 1; h < 260; h++) for (uint32_t n = 1; n <= h; n++) {
        hx::at("arith::get_code_len(%u,%u)", h, n);
        uint32_t c = arith::get_code_len<uint32_t>(h, n); CHECK(c && h % c == 0 && c >= n && (h % n || c == n), "returned %u", c);
        c = arith::get_code_len_high_compo<uint32_t>(h, n); CHECK(c && h % c == 0 && c >= n, "high_compo returned %u", c);
    }
}
SEC(refused) {
    auto f = gf::create<gf::Prime<uint32_t>>(257u); auto b = gf::create<gf::BinExtension<uint32_t>>(8u);
    for (uint32_t n : {257u, 258u, 300u, 512u, 1000u, 65536u}) {
        hx::at("impossible code length %u over GF(257) is refused", n);
        CHECK(hx::outcome([&] { f.get_code_len(n); }) != 0, "get_code_len returned"); CHECK(hx::outcome([&] { f.get_code_len_high_compo(n); }) != 0, "get_code_len_high_compo returned");
        CHECK(hx::outcome([&] { b.get_code_len(n); }) != 0, "GF(2^8) get_code_len returned");
        CHECK(hx::outcome([&] { arith::get_code_len<uint32_t>(256, n); }) != 0, "arith::get_code_len returned"); CHECK(hx::outcome([&] { arith::get_code_len_high_compo<uint32_t>(256, n); }) != 0, "arith::get_code_len_high_compo returned");
    }
}
SEC(cached) {
    char d[] = "/tmp/c14XXXXXX"; CHK(mkdtemp(d)); CHK(chdir(d) == 0);
    auto f = gf::create<gf::Prime<uint32_t>>(257u); auto g = zp(257);
    for (int d2 : {2, 16, 256}) for (int rep = 0; rep < 2; rep++) { uint32_t w = f.get_nth_root(d2); hx::at("compute_omegas_cached(%d) pass %d", d2, rep); vec::Vector<uint32_t> W(f, d2); f.compute_omegas_cached(W, d2, w); for (int i = 0; i < d2; i++) CHK((u128)W.get(i) == g.pow(w, i)); unlink(rep ? ("W" + std::to_string(w) + ".cache").c_str() : ""); }
    CHK(chdir("/") == 0); rmdir(d);
}
HX_MAIN
