// C08: bulk buffer operations equal the scalar operation at every index and
// touch nothing else; vectorized builds agree with the portable one.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
using hx::u128; using hx::SC;
typedef u128 E;
struct Ora { // scalar oracle
    const char* name; int kind; uint64_t m; int n; u128 p, msk; int lanes;
    E add(E a, E b) const { if (kind == 0) return om::addm(a, b, m); if (kind == 1) return a ^ b; return lane(a, b, 0); }
    E sub(E a, E b) const { if (kind == 0) return om::subm(a, b, m); if (kind == 1) return a ^ b; return lane(a, b, 1); }
    E mul(E a, E b) const
    {
        if (kind == 0) return om::mulm(a, b, m);
        if (kind == 2) return lane(a, b, 2);
        E r = 0; for (int i = n - 1; i >= 0; i--) { bool c = r >> (n - 1) & 1; r = (r << 1) & msk; if (c) r ^= p; if (b >> i & 1) r ^= a; } return r;
    }
    E lane(E a, E b, int op) const
    {
        E r = 0;
        for (int i = lanes - 1; i >= 0; i--) {
            uint64_t x = (uint32_t)(a >> 32 * i), y = (uint32_t)(b >> 32 * i), q = 65537;
            r = r << 16 << 16 | (op == 0 ? (x + y) % q : op == 1 ? (x + q - y) % q : x * y % q);
        }
        return r;
    }
    E top() const { return kind == 0 ? (E)(m - 1) : kind == 1 ? msk : rep(65536); }
    E rep(E v) const { E r = v; for (int i = 1; i < lanes; i++) r = r << 32 | v; return r; }
    E rnd() const
    {
        if (kind == 0) { switch (hx::R(6)) { case 0: return m - 1; case 1: return 0; case 2: return m - 1 - hx::R(3) % m; default: return hx::R(m); } }
        if (kind == 1) { u128 v = ((u128)hx::R() << 64 | hx::R()) & msk; return hx::coin(6) ? msk : v; }
        E r = 0; for (int i = 0; i < lanes; i++) r = r << 32 | (hx::coin(4) ? 65536 : hx::R(65537)); return r;
    }
};
template <typename T> void fill(hx::Guarded<T>& b, std::vector<E>& v, const Ora& o, int mode)
{
    v.resize(b.n);
    E top = o.top();
    for (size_t i = 0; i < b.n; i++) { v[i] = mode == 1 ? top : mode == 2 ? (E)0 : o.rnd(); b[i] = (T)v[i]; }
}
#define SAME(buf, vec, what) do { for (size_t i_ = 0; i_ < (vec).size(); i_++) CHECK((E)(buf)[i_] == (vec)[i_], "%s: element %zu is %s, expected %s", what, i_, SC((E)(buf)[i_]), SC((vec)[i_])); CHECK((buf).intact(), "%s: wrote outside the buffer", what); } while (0)

template <typename T> void bufs(const gf::RingModN<T>& g, const Ora& o, size_t len, int mode, E coef)
{
    hx::at("%s %d-bit type len=%zu mode=%d coef=%s", o.name, (int)sizeof(T) * 8, len, mode, SC(coef));
    std::vector<E> A, B, W(len);
    { hx::Guarded<T> s(len), d(len); fill(s, A, o, mode); fill(d, B, o, 0);
      g.mul_coef_to_buf((T)coef, s.p(), d.p(), len);
      for (size_t i = 0; i < len; i++) W[i] = o.mul(coef, A[i]);
      SAME(d, W, "mul_coef_to_buf"); SAME(s, A, "mul_coef_to_buf source");
      g.mul_coef_to_buf((T)coef, s.p(), s.p(), len); SAME(s, W, "mul_coef_to_buf in place"); }
    { hx::Guarded<T> s(len), d(len); fill(s, A, o, mode); fill(d, B, o, mode == 1 ? 1 : 0);
      g.add_two_bufs(s.p(), d.p(), len);
      for (size_t i = 0; i < len; i++) W[i] = o.add(A[i], B[i]);
      SAME(d, W, "add_two_bufs"); SAME(s, A, "add_two_bufs source");
      g.add_two_bufs(s.p(), s.p(), len);
      for (size_t i = 0; i < len; i++) W[i] = o.add(A[i], A[i]);
      SAME(s, W, "add_two_bufs onto itself"); }
    { hx::Guarded<T> a(len), b(len), r(len); std::vector<E> C; fill(a, A, o, mode == 1 ? 2 : 0); fill(b, B, o, mode); fill(r, C, o, 0);
      g.sub_two_bufs(a.p(), b.p(), r.p(), len);
      for (size_t i = 0; i < len; i++) W[i] = o.sub(A[i], B[i]);
      SAME(r, W, "sub_two_bufs"); SAME(a, A, "sub_two_bufs first"); SAME(b, B, "sub_two_bufs second");
      hx::Guarded<T> a2(len); for (size_t i = 0; i < len; i++) a2[i] = a[i];
      g.sub_two_bufs(a.p(), b.p(), a.p(), len); SAME(a, W, "sub_two_bufs into first");
      g.sub_two_bufs(a2.p(), b.p(), b.p(), len); SAME(b, W, "sub_two_bufs into second"); }
    { hx::Guarded<T> x(len), y(len); fill(x, A, o, mode); fill(y, B, o, mode);
      g.hadamard_mul((int)len, x.p(), y.p());
      for (size_t i = 0; i < len; i++) W[i] = o.mul(A[i], B[i]);
      SAME(x, W, "hadamard_mul"); SAME(y, B, "hadamard_mul source"); }
    { hx::Guarded<T> x(len); fill(x, A, o, mode);
      g.neg(len, x.p());
      for (size_t i = 0; i < len; i++) W[i] = o.sub(0, A[i]);
      SAME(x, W, "neg"); }
}
template <typename T> void sets(const gf::RingModN<T>& g, const Ora& o, int n, size_t len)
{
    hx::at("%s %d-bit type Buffers n=%d size=%zu", o.name, (int)sizeof(T) * 8, n, len);
    auto fillB = [&](vec::Buffers<T>& b) { std::vector<std::vector<E>> v(n, std::vector<E>(len)); for (int i = 0; i < n; i++) for (size_t j = 0; j < len; j++) { v[i][j] = hx::coin(5) ? o.top() : o.rnd(); b.get(i)[j] = (T)v[i][j]; } return v; };
    auto same = [&](vec::Buffers<T>& b, const std::vector<std::vector<E>>& v, const char* w) { for (int i = 0; i < n; i++) for (size_t j = 0; j < len; j++) CHECK((E)b.get(i)[j] == v[i][j], "%s: buffer %d element %zu is %s, expected %s", w, i, j, SC((E)b.get(i)[j]), SC(v[i][j])); };
    vec::Buffers<T> a(n, len), b(n, len), r(n, len);
    auto A = fillB(a), B = fillB(b); auto W = A;
    fillB(r);
    g.sub_vecp_to_vecp(a, b, r);
    for (int i = 0; i < n; i++) for (size_t j = 0; j < len; j++) W[i][j] = o.sub(A[i][j], B[i][j]);
    same(r, W, "sub_vecp_to_vecp"); same(a, A, "sub source a"); same(b, B, "sub source b");
    g.add_vecp_to_vecp(a, b);
    for (int i = 0; i < n; i++) for (size_t j = 0; j < len; j++) B[i][j] = o.add(A[i][j], B[i][j]);
    same(b, B, "add_vecp_to_vecp"); same(a, A, "add source");
    g.neg(b);
    for (int i = 0; i < n; i++) for (size_t j = 0; j < len; j++) B[i][j] = o.sub(0, B[i][j]);
    same(b, B, "neg(Buffers)");
    vec::Vector<T> u(g, n); std::vector<E> U(n);
    E one = o.kind == 2 ? o.rep(1) : 1;
    for (int i = 0; i < n; i++) {
        switch (hx::R(6)) { case 0: U[i] = 0; break; case 1: U[i] = one; break; case 2: U[i] = o.top(); break; case 3: U[i] = o.sub(o.top(), one); break; default: U[i] = o.kind == 2 ? o.rep(hx::R(65537)) : o.rnd(); }
        u.set(i, (T)U[i]);
    }
    fillB(r);
    g.mul_vec_to_vecp(u, a, r);
    for (int i = 0; i < n; i++) for (size_t j = 0; j < len; j++) W[i][j] = o.mul(U[i], A[i][j]);
    same(r, W, "mul_vec_to_vecp"); same(a, A, "mul_vec_to_vecp source");
    g.mul_vec_to_vecp(u, a, a);
    same(a, W, "mul_vec_to_vecp in place");
    for (int i = 0; i < n; i++) CHK((E)u.get(i) == U[i]);
}
template <typename T> void all(const gf::RingModN<T>& g, const Ora& o)
{
    E one = o.kind == 2 ? o.rep(1) : 1;
    for (size_t len = 0; len <= 70; len++) for (int mode = 0; mode < 3; mode++) bufs<T>(g, o, len, mode, hx::coin(3) ? o.top() : o.rnd());
    std::vector<E> cs = {0, one, o.top()}; if (o.top() > 2) { cs.push_back(o.sub(o.top(), one)); cs.push_back(o.add(one, one)); }
    for (E c : cs) for (size_t len : {1, 7, 8, 16, 33, 64}) for (int mode = 0; mode < 3; mode++) bufs<T>(g, o, len, mode, c);
    for (int i = 0; i < 60 * hx::scale(); i++) bufs<T>(g, o, hx::R(300), (int)hx::R(2), o.rnd());
    for (int i = 0; i < 150 * hx::scale(); i++) sets<T>(g, o, (int)hx::R(12), hx::coin() ? hx::R(20) : hx::R(140));
}
static Ora ring(uint64_t m) { Ora o{}; o.name = strdup(("ring mod " + hx::S(m)).c_str()); o.kind = 0; o.m = m; o.lanes = 1; return o; }
static Ora bin(int n) { Ora o{}; o.name = strdup(("GF(2^" + std::to_string(n) + ")").c_str()); o.kind = 1; o.n = n; o.p = n == 4 ? 3 : n == 8 ? 0x1d : n == 16 ? 0x100b : n == 32 ? 0x8d : n == 64 ? 0x1b : 0x87; o.msk = n == 128 ? ~(u128)0 : ((u128)1 << n) - 1; o.lanes = 1; return o; }
static Ora nf4(int n) { Ora o{}; o.name = strdup(("NF4 n=" + std::to_string(n)).c_str()); o.kind = 2; o.lanes = n; return o; }

template <typename T> void ringrun(std::vector<uint64_t> ms) { for (auto m : ms) { hx::at("ring %s", SC(m)); auto g = gf::create<gf::Prime<T>>((T)m); all<T>(g, ring(m)); } }
SEC(ring16) { ringrun<uint16_t>({257, 3, 251, 32771, 65521}); }
SEC(ring32_a) { ringrun<uint32_t>({257, 65537}); }
SEC(ring32_b) { ringrun<uint32_t>({5, 12289, 2147483647, 4294967291}); }
SEC(ring64) { ringrun<uint64_t>({257, 65537, 4294967311ull, 9223372036854775837ull}); }
SEC(bin32) { for (int n : {4, 8, 16, 32}) { auto g = gf::create<gf::BinExtension<uint32_t>>((uint32_t)n); all<uint32_t>(g, bin(n)); } }
SEC(bin64) { for (int n : {8, 16, 32, 64}) { auto g = gf::create<gf::BinExtension<uint64_t>>((uint64_t)n); all<uint64_t>(g, bin(n)); } }
SEC(bin128) { for (int n : {8, 128}) { auto g = gf::create<gf::BinExtension<__uint128_t>>((__uint128_t)n); all<__uint128_t>(g, bin(n)); } }
SEC(nf4_32) { auto g = gf::create<gf::NF4<uint32_t>>(1u); all<uint32_t>(g, nf4(1)); }
SEC(nf4_64) { for (int n : {1, 2}) { auto g = gf::create<gf::NF4<uint64_t>>((unsigned)n); all<uint64_t>(g, nf4(n)); } }
SEC(nf4_128) { for (int n : {1, 3, 4}) { auto g = gf::create<gf::NF4<__uint128_t>>((unsigned)n); all<__uint128_t>(g, nf4(n)); } }
// every element value times every coefficient in GF(257); every value of
// GF(65537) with edge coefficients
SEC(exhaust) {
    auto g = gf::create<gf::Prime<uint16_t>>((uint16_t)257); Ora o = ring(257);
    for (int c = 0; c < 257; c++) {
        hx::at("GF(257) coefficient %d, all elements", c);
        hx::Guarded<uint16_t> s(257), d(257), e(257);
        for (int i = 0; i < 257; i++) { s[i] = i; d[i] = c; e[i] = 7; }
        g.mul_coef_to_buf(c, s.p(), e.p(), 257); for (int i = 0; i < 257; i++) CHECK(e[i] == i * c % 257, "mul_coef: element %d", i);
        for (int i = 0; i < 257; i++) e[i] = c; g.add_two_bufs(s.p(), e.p(), 257); for (int i = 0; i < 257; i++) CHECK(e[i] == (i + c) % 257, "add: element %d", i);
        g.sub_two_bufs(s.p(), d.p(), e.p(), 257); for (int i = 0; i < 257; i++) CHECK(e[i] == (i + 257 - c) % 257, "sub: element %d", i);
        for (int i = 0; i < 257; i++) e[i] = c; g.hadamard_mul(257, e.p(), s.p()); for (int i = 0; i < 257; i++) CHECK(e[i] == i * c % 257, "hadamard: element %d", i);
    }
    auto g2 = gf::create<gf::Prime<uint32_t>>(65537u);
    for (uint32_t c : std::vector<uint32_t>{0, 1, 2, 3, 255, 256, 257, 32768, 32769, 65534, 65535, 65536, 12345}) {
        const int N = 65537; hx::at("GF(65537) coefficient %u, all elements", c);
        hx::Guarded<uint32_t> s(N), d(N), e(N);
        for (int i = 0; i < N; i++) { s[i] = i; d[i] = c; }
        g2.mul_coef_to_buf(c, s.p(), e.p(), N); for (int i = 0; i < N; i++) CHECK(e[i] == (uint64_t)i * c % N, "mul_coef: element %d", i);
        for (int i = 0; i < N; i++) e[i] = c; g2.add_two_bufs(s.p(), e.p(), N); for (int i = 0; i < N; i++) CHECK(e[i] == (i + c) % N, "add: element %d", i);
        g2.sub_two_bufs(s.p(), d.p(), e.p(), N); for (int i = 0; i < N; i++) CHECK(e[i] == (i + N - c) % N, "sub: element %d", i);
        for (int i = 0; i < N; i++) e[i] = c; g2.hadamard_mul(N, e.p(), s.p()); for (int i = 0; i < N; i++) CHECK(e[i] == (uint64_t)i * c % N, "hadamard: element %d", i);
        g2.neg(N, s.p()); for (int i = 0; i < N; i++) CHECK(s[i] == (N - (uint32_t)i) % N, "neg: element %d", i);
    }
}
HX_MAIN
