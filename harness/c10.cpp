// C10: NF4 packed arithmetic is lane-wise GF(65537) arithmetic.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
using hx::u128;
typedef std::vector<uint64_t> L;
static const uint64_t Q = 65537;
template <typename T> T mk(const L& l) { T r = 0; for (int i = (int)l.size() - 1; i >= 0; i--) r = (T)(((r << 16) << 16) | (T)l[i]); return r; }
template <typename T> L un(T v, int n) { L l; for (int i = 0; i < n; i++) { l.push_back((uint64_t)(uint32_t)v); v = (v >> 16) >> 16; } return l; }
static const std::vector<uint64_t> EDGE = {0, 1, 2, 3, 255, 256, 257, 32767, 32768, 32769, 65534, 65535, 65536};
static uint64_t lane(bool nz) { uint64_t v; do v = hx::coin(3) ? hx::R(Q) : hx::coin() ? EDGE[hx::R(EDGE.size())] : (uint64_t)65536; while (nz && !v); return v; }
static L rl(int n, bool nz = false) { L l; for (int i = 0; i < n; i++) l.push_back(lane(nz)); return l; }
#define LCHK(got, want, what) do { auto g_ = un<T>(got, n); L w_ = want; if (g_ != w_ || (T)(got) != mk<T>(w_)) hx::fail("%s = %s, expected %s", what, hx::LST(g_).c_str(), hx::LST(w_).c_str()); } while (0)
template <typename F> L map2(const L& a, const L& b, F f) { L r; for (size_t i = 0; i < a.size(); i++) r.push_back(f(a[i], b[i])); return r; }

template <typename T> void one(const gf::NF4<T>& g, int n, const L& a, const L& b, bool slow)
{
    hx::at("NF4 %d-bit elements n=%d a=%s b=%s", (int)sizeof(T) * 8, n, hx::LST(a).c_str(), hx::LST(b).c_str());
    T x = mk<T>(a), y = mk<T>(b);
    LCHK(g.add(x, y), map2(a, b, [](uint64_t u, uint64_t v) { return (u + v) % Q; }), "add");
    LCHK(g.sub(x, y), map2(a, b, [](uint64_t u, uint64_t v) { return (u + Q - v) % Q; }), "sub");
    LCHK(g.mul(x, y), map2(a, b, [](uint64_t u, uint64_t v) { return u * v % Q; }), "mul");
    LCHK(g.neg(x), map2(a, b, [](uint64_t u, uint64_t) { return (Q - u) % Q; }), "neg");
    bool nz = true; for (auto v : b) nz = nz && v;
    if (slow) {
        LCHK(g.exp(x, y), map2(a, b, [](uint64_t u, uint64_t v) { return om::powm(u, v, Q); }), "exp");
        if (nz) {
            LCHK(g.inv(y), map2(b, b, [](uint64_t u, uint64_t) { return om::powm(u, Q - 2, Q); }), "inv(b)");
            LCHK(g.div(x, y), map2(a, b, [](uint64_t u, uint64_t v) { return u * om::powm(v, Q - 2, Q) % Q; }), "div");
        }
    }
    CHK(g.check(x));
    // unpack / pack
    auto u = g.unpack(x);
    uint32_t fl = 0; T vals = 0;
    for (int i = n - 1; i >= 0; i--) { if (a[i] == 65536) fl |= 1u << i; vals = (T)((vals << 16) | (T)(a[i] == 65536 ? 0 : a[i])); }
    CHECK(u.flag == fl, "unpack flag %x expected %x", u.flag, fl);
    CHECK(u.values == vals, "unpack values %s expected %s", hx::SC(u.values), hx::SC(vals));
    GroupedValues<T> u2; u2.values = ~(T)0; u2.flag = ~0u;
    g.unpack(x, u2);
    CHK(u2.flag == fl && u2.values == vals);
    LCHK(g.pack(vals, fl), a, "pack(values, flags)");
    // pack of arbitrary 16-bit words with arbitrary flags of the n lanes
    T w = 0; L wl, wf; uint32_t rf = (uint32_t)hx::R(1u << n);
    for (int i = 0; i < n; i++) wl.push_back(hx::coin(4) ? 65535 : hx::R(65536));
    for (int i = n - 1; i >= 0; i--) w = (T)((w << 16) | (T)wl[i]);
    for (int i = 0; i < n; i++) wf.push_back(rf >> i & 1 ? 65536 : wl[i]);
    LCHK(g.pack(w), wl, "pack(words)");
    LCHK(g.pack(w, rf), wf, "pack(words, random flags)");
    auto r = g.unpack(g.pack(w));
    CHK(r.flag == 0 && r.values == w);
}
template <typename T> void run(int n)
{
    auto g = gf::create<gf::NF4<T>>((unsigned)n);
    L q(n, Q), h(n, 65536), ones(n, 1);
    hx::at("NF4 constants n=%d %d bits", n, (int)sizeof(T) * 8);
    CHK(g.card_minus_one() == mk<T>(h)); CHK(g.card() == mk<T>(q)); CHK(g.get_unit() == mk<T>(ones)); CHK(g.isNF4);
    for (uint64_t v : EDGE) { LCHK(g.replicate((T)v), L(n, v), "replicate"); }
    for (int v : {1, 2, 3, 16, 255, 65535}) LCHK(g.get_inv_n_mod_p(v), L(n, om::powm(v, Q - 2, Q)), "get_inv_n_mod_p");
    for (int d = 0; d <= 16; d++) {
        hx::at("get_nth_root(2^%d) n=%d", d, n);
        T w = g.get_nth_root((T)1 << d); auto l = un<T>(w, n);
        for (int i = 0; i < n; i++) { CHK(l[i] == l[0]); }
        CHK(om::order_in(l[0], Q, 65536) == (1ull << d));
        if (d && d < 12) {
            int N = 1 << d; vec::Vector<T> W(g, N); g.compute_omegas(W, N, w);
            for (int i = 0; i < N; i++) LCHK(W.get(i), L(n, om::powm(l[0], i, Q)), "compute_omegas");
        }
    }
    for (uint64_t x : EDGE) for (uint64_t y : EDGE) for (int i = 0; i < n; i++) {
        L a = rl(n), b = rl(n, true); a[i] = x; b[i] = y; one<T>(g, n, a, b, true);
        one<T>(g, n, L(n, x), L(n, y), false);
    }
    for (int i = 0; i < 20000 * hx::scale(); i++) one<T>(g, n, rl(n), rl(n, hx::coin()), i % 20 == 0);
    for (int i = 0; i < 500; i++) {
        hx::at("rand n=%d", n);
        for (auto v : un<T>(g.rand(), n)) CHK(v <= 65536);
        T r = g.unpacked_rand(); u128 m = (u128)1 << (16 * n - 1); CHK(((u128)r >> (16 * n - 1)) <= 1); (void)m;
    }
    for (int i = 0; i < 4; i++) { // logarithm, small exponents keep the brute force short
        L a, e, b; for (int k = 0; k < n; k++) { a.push_back(3); e.push_back(1 + hx::R(60)); b.push_back(om::powm(3, e[k], Q)); }
        hx::at("NF4 log n=%d base 3 of %s", n, hx::LST(b).c_str());
        LCHK(g.log(mk<T>(a), mk<T>(b)), e, "log");
    }
    for (int len = 0; len < 40; len++) {
        hx::at("NF4 hadamard_mul n=%d len=%d", n, len);
        hx::Guarded<T> x(len), y(len); std::vector<L> A, B;
        for (int i = 0; i < len; i++) { A.push_back(rl(n)); B.push_back(rl(n)); x[i] = mk<T>(A[i]); y[i] = mk<T>(B[i]); }
        g.hadamard_mul(len, x.p(), y.p());
        for (int i = 0; i < len; i++) { LCHK(x[i], map2(A[i], B[i], [](uint64_t u, uint64_t v) { return u * v % Q; }), "hadamard_mul"); CHK(y[i] == mk<T>(B[i])); }
        CHK(x.intact() && y.intact());
    }
}
SEC(n1_32) { run<uint32_t>(1); }
SEC(n1_64) { run<uint64_t>(1); }
SEC(n2_64) { run<uint64_t>(2); }
SEC(n1_128) { run<__uint128_t>(1); }
SEC(n2_128) { run<__uint128_t>(2); }
SEC(n3_128) { run<__uint128_t>(3); }
SEC(n4_128) { run<__uint128_t>(4); }
// one lane, every value against the edge values
SEC(lane_all) {
    auto g = gf::create<gf::NF4<__uint128_t>>(4u); auto g2 = gf::create<gf::NF4<uint64_t>>(2u);
    for (uint64_t v = 0; v <= 65536; v++) {
        uint64_t y = EDGE[v % EDGE.size()];
        { typedef __uint128_t T; int n = 4; L a = {v, 65536 - v, v ^ 1, (v * 7) % Q}, b = {y, 65536, 65536 - v, v};
          if (a[2] > 65536) a[2] = 0;
          hx::at("lanes a=%s b=%s", hx::LST(a).c_str(), hx::LST(b).c_str());
          LCHK(g.mul(mk<T>(a), mk<T>(b)), map2(a, b, [](uint64_t u, uint64_t w) { return u * w % Q; }), "mul");
          LCHK(g.add(mk<T>(a), mk<T>(b)), map2(a, b, [](uint64_t u, uint64_t w) { return (u + w) % Q; }), "add");
          LCHK(g.sub(mk<T>(a), mk<T>(b)), map2(a, b, [](uint64_t u, uint64_t w) { return (u + Q - w) % Q; }), "sub"); }
        { typedef uint64_t T; int n = 2; L a = {v, y}, b = {65536 - v, v};
          hx::at("lanes64 a=%s b=%s", hx::LST(a).c_str(), hx::LST(b).c_str());
          LCHK(g2.mul(mk<T>(a), mk<T>(b)), map2(a, b, [](uint64_t u, uint64_t w) { return u * w % Q; }), "mul");
          LCHK(g2.add(mk<T>(a), mk<T>(b)), map2(a, b, [](uint64_t u, uint64_t w) { return (u + w) % Q; }), "add");
          LCHK(g2.sub(mk<T>(a), mk<T>(b)), map2(a, b, [](uint64_t u, uint64_t w) { return (u + Q - w) % Q; }), "sub"); }
    }
}
HX_MAIN
