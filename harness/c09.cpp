// C09: GF(2^n) arithmetic is polynomial arithmetic modulo the field polynomial.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
using hx::u128; using hx::SC;
static u128 low_poly(int n) { switch (n) { case 1: return 1; case 2: return 3; case 3: return 3; case 4: return 3; case 8: return 0x1d; case 16: return 0x100b; case 32: return 0x8d; case 64: return 0x1b; default: return 0x87; } }
struct O { // oracle: shift-and-add with reduction
    int n; u128 p, msk;
    O(int n_) : n(n_), p(low_poly(n_)), msk(n_ == 128 ? ~(u128)0 : (((u128)1 << n_) - 1)) {}
    u128 x2(u128 a) const { bool c = a >> (n - 1) & 1; a = (a << 1) & msk; return c ? a ^ p : a; }
    u128 mul(u128 a, u128 b) const { u128 r = 0; for (int i = n - 1; i >= 0; i--) { r = x2(r); if (b >> i & 1) r ^= a; } return r; }
    u128 pow(u128 a, u128 e) const { u128 r = 1; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; }
    u128 inv(u128 a) const { return pow(a, msk - 1); }
    u128 rnd() const { u128 v = ((u128)hx::R() << 64 | hx::R()); v >>= hx::coin(3) ? hx::R(128) : 0; return v & msk; }
};
template <typename T, typename F> void ops(const F& g, const O& o, u128 a, u128 b, bool ex)
{
    int n = o.n;
    hx::at("GF(2^%d) over %d-bit type a=%s b=%s", n, (int)sizeof(T) * 8, SC(a), SC(b));
    u128 r;
    r = g.add((T)a, (T)b); CHECK(r == (a ^ b), "add=%s", SC(r));
    r = g.sub((T)a, (T)b); CHECK(r == (a ^ b), "sub=%s", SC(r));
    r = g.neg((T)a); CHECK(r == a, "neg=%s", SC(r));
    u128 m = o.mul(a, b);
    r = g.mul((T)a, (T)b); CHECK(r == m, "mul=%s expected %s", SC(r), SC(m));
    if (b) { r = g.div((T)m, (T)b); CHECK(r == a, "div(a*b,b)=%s", SC(r)); r = g.inv((T)b); CHECK(r <= o.msk && o.mul(r, b) == 1, "inv(b)=%s", SC(r)); r = g.div((T)a, (T)b); CHECK(r <= o.msk && o.mul(r, b) == a, "div(a,b)=%s", SC(r)); }
    if (ex) { r = g.exp((T)a, (T)b); u128 w = o.pow(a, b); CHECK(r == w, "exp=%s expected %s", SC(r), SC(w)); }
    CHK(g.check((T)a));
}
template <typename T> void run(int n)
{
    hx::at("create BinExtension(%d) over %d bits", n, (int)sizeof(T) * 8);
    auto g = gf::create<gf::BinExtension<T>>((T)n);
    O o(n);
    CHK((u128)g.card_minus_one() == o.msk);
    if (n < (int)sizeof(T) * 8) CHK((u128)g.card() == o.msk + 1);
    if (n < (int)sizeof(T) * 8) CHK(!g.check((T)(o.msk + 1)));
    if (n <= 8) { for (u128 a = 0; a <= o.msk; a++) for (u128 b = 0; b <= o.msk; b++) ops<T>(g, o, a, b, true); }
    else {
        std::vector<u128> E = {0, 1, 2, 3, o.msk, o.msk - 1, o.msk >> 1, (o.msk >> 1) + 1, o.p, 255, 256, 0x100ff & o.msk};
        for (int i = 0; i < n; i += n > 32 ? 7 : 1) { E.push_back((u128)1 << i); E.push_back(((u128)1 << i) - 1); E.push_back(o.msk ^ ((u128)1 << i)); }
        for (u128 a : E) for (u128 b : E) ops<T>(g, o, a, b, false);
        for (int i = 0; i < (n == 128 ? 300 : 1000) * hx::scale(); i++) ops<T>(g, o, o.rnd(), o.rnd(), i % 4 == 0);
        if (n == 16) { for (u128 a = 0; a <= o.msk; a++) ops<T>(g, o, a, (a * 40503) & o.msk, false); }
    }
    // every basis product x^i * x^j (multiplication is bilinear)
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { u128 a = (u128)1 << i, b = (u128)1 << j; hx::at("GF(2^%d) x^%d * x^%d", n, i, j); u128 r = g.mul((T)a, (T)b); CHECK(r == o.mul(a, b), "mul=%s", SC(r)); }
    // byte split tables: every byte value in every position
    if (n >= 8) for (int i = 0; i < n / 8; i++) for (int j = 0; j < n / 8; j++) for (int v = 0; v < 256; v++) { u128 a = (u128)v << 8 * i, b = (u128)(255 - v) << 8 * j; hx::at("GF(2^%d) byte product %s * %s", n, SC(a), SC(b)); u128 r = g.mul((T)a, (T)b); CHECK(r == o.mul(a, b), "mul=%s", SC(r)); }
    // every pair of bytes at every degree
    if (n >= 32) for (int t = 0; t < n / 4 - 1; t++) for (int u = 0; u < 256; u++) { int i = t < n / 8 ? 0 : t - n / 8 + 1, j = t - i; u128 a = (u128)u << 8 * i; hx::at("GF(2^%d) byte product %s * (any byte) at degree %d", n, SC(a), 8 * t);
        u128 e[256]; e[0] = 0; u128 y = o.mul(a, (u128)1 << 8 * j); for (int v = 1; v < 256; v++) e[v] = v & 1 ? e[v ^ 1] ^ y : o.x2(e[v >> 1]);
        for (int v = 0; v < 256; v++) { u128 r = g.mul((T)a, (T)((u128)v << 8 * j)); if (r != e[v]) CHECK(false, "byte %d: mul=%s", v, SC(r)); } }
    // logarithm: an exponent that gives back the argument
    for (int i = 0; i < (n <= 4 ? 300 : 60); i++) {
        u128 a = n <= 4 ? (u128)(i / 16) & o.msk : o.rnd(), b = n <= 4 ? (u128)i & o.msk : n > 16 ? o.pow(a, 1 + hx::R(500)) : o.rnd();
        if (n > 8 && n <= 16) { b = hx::coin(8) ? b : o.pow(a, hx::R(65535)); }
        if (n > 16 && a == 0) continue;
        hx::at("GF(2^%d) log base %s of %s", n, SC(a), SC(b));
        bool got = true; u128 r = 0;
        try { r = g.log((T)a, (T)b); } catch (const NoSolution&) { got = false; }
        if (got) CHECK(o.pow(a, r) == b, "log=%s", SC(r));
        else if (n <= 16) { u128 x = 1; for (u128 e = 0; e <= o.msk; e++) { CHECK(x != b, "refused although exponent %s exists", SC(e)); x = o.mul(x, a); } }
        else hx::fail("refused although a logarithm exists");
    }
    for (int len = 0; len < 40; len += 1 + len / 9) {
        hx::at("GF(2^%d) hadamard_mul len=%d", n, len);
        hx::Guarded<T> x(len), y(len); std::vector<u128> A(len), B(len);
        for (int i = 0; i < len; i++) { A[i] = o.rnd(); B[i] = o.rnd(); x[i] = (T)A[i]; y[i] = (T)B[i]; }
        g.hadamard_mul(len, x.p(), y.p());
        for (int i = 0; i < len; i++) CHECK((u128)x[i] == o.mul(A[i], B[i]) && (u128)y[i] == B[i], "at index %d", i);
        CHK(x.intact() && y.intact());
    }
}
template <typename T> void small() { for (int n : {1, 2, 3, 4, 8, 16}) run<T>(n); }
SEC(small32) { small<uint32_t>(); }
SEC(small64) { small<uint64_t>(); }
SEC(small128) { small<__uint128_t>(); }
SEC(u16_8) { for (int n : {1, 2, 3, 4, 8}) run<uint16_t>(n); }
SEC(n32_32) { run<uint32_t>(32); }
SEC(n32_64) { run<uint64_t>(32); }
SEC(n32_128) { run<__uint128_t>(32); }
SEC(n64_64) { run<uint64_t>(64); }
SEC(n64_128) { run<__uint128_t>(64); }
SEC(n128_128) { run<__uint128_t>(128); }
HX_MAIN
