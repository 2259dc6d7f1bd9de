// C16: vector and polynomial algebra over the field.
#include "common.h"
#include "quadiron.h"
#include "field_oracle.h"
using namespace quadiron;
using hx::SC;
typedef FO::E E; typedef std::vector<E> V;
template <typename T> void put(vec::Vector<T>& v, const V& x) { for (size_t i = 0; i < x.size(); i++) v.get_mem()[i] = (T)x[i]; }
template <typename T> V get(const vec::Vector<T>& v) { V r; for (int i = 0; i < v.get_n(); i++) r.push_back((E)v.get(i)); return r; }
#define EQ(v, w, what) do { V g_ = get(v); if (g_ != (w)) hx::fail("%s: got %s expected %s", what, hx::LST(g_).c_str(), hx::LST(w).c_str()); } while (0)

template <typename T> void vectors(const gf::RingModN<T>& g, const FO& o, int n)
{
    hx::at("%s %d-bit vector n=%d", o.name.c_str(), (int)sizeof(T) * 8, n);
    V A = o.rv(n), B = o.rv(n), W = A; E s = o.rnd();
    vec::Vector<T> a(g, n), b(g, n);
    CHK(a.get_n() == n && a.get_mem_len() == n && &a.get_gf() == &g);
    put(a, A); put(b, B);
    a.hadamard_mul(&b); for (int i = 0; i < n; i++) W[i] = o.mul(A[i], B[i]); EQ(a, W, "hadamard_mul"); EQ(b, B, "hadamard_mul operand");
    put(a, A); a.hadamard_mul(&a); for (int i = 0; i < n; i++) W[i] = o.mul(A[i], A[i]); EQ(a, W, "hadamard_mul with itself");
    put(a, A); a.mul_scalar((T)s); for (int i = 0; i < n; i++) W[i] = o.mul(A[i], s); EQ(a, W, "mul_scalar");
    put(a, A); a.mul_beta((T)s); { E c = o.one(); for (int i = 0; i < n; i++) { W[i] = i ? o.mul(A[i], c) : A[i]; c = o.mul(c, s); } } EQ(a, W, "mul_beta");
    put(a, A); a.add(&b); for (int i = 0; i < n; i++) W[i] = o.add(A[i], B[i]); EQ(a, W, "add"); EQ(b, B, "add operand");
    put(a, A); a.add(&a); for (int i = 0; i < n; i++) W[i] = o.add(A[i], A[i]); EQ(a, W, "add to itself");
    put(a, A); a.neg(); for (int i = 0; i < n; i++) W[i] = o.sub(0, A[i]); EQ(a, W, "neg");
    put(a, A); a.add_mutual(&b); for (int i = 0; i < n; i++) W[i] = o.add(A[i], B[i]); EQ(a, W, "add_mutual");
    int k = (int)hx::R(n + 1), off = (int)hx::R(n - k + 1);
    V C = o.rv(k); vec::Vector<T> c(g, k); put(c, C);
    hx::at("%s vector n=%d, operand n=%d offset=%d", o.name.c_str(), n, k, off);
    put(a, A); a.add(&c, off); W = A; for (int i = 0; i < k; i++) W[off + i] = o.add(A[off + i], C[i]); EQ(a, W, "add(offset)");
    put(a, A); a.add_mutual(&c); W = A; for (int i = 0; i < k; i++) W[i] = o.add(A[i], C[i]); EQ(a, W, "add_mutual shorter");
    put(a, A); a.add_mutual(&c, off); W = A; for (int i = 0; i < k; i++) W[off + i] = o.add(A[off + i], C[i]); EQ(a, W, "add_mutual(offset)");
    int l = (int)hx::R(k + 1);
    put(a, A); a.add_mutual(&c, off, l); W = A; for (int i = 0; i < l; i++) W[off + i] = o.add(A[off + i], C[i]); EQ(a, W, "add_mutual(offset,len)");
    put(a, A); a.copy(&c); W = A; for (int i = 0; i < k; i++) W[i] = C[i]; EQ(a, W, "copy"); EQ(c, C, "copy source");
    int q = (int)hx::R(n + 1);
    put(a, A); a.copy(&c, q); W = A; for (int i = 0; i < q; i++) W[i] = i < k ? C[i] : 0; EQ(a, W, "copy(n)");
    int d = (int)hx::R(n - q + 1);
    put(a, A); a.copy(&c, q, d); W = A; for (int i = 0; i < q; i++) W[d + i] = i < k ? C[i] : 0; EQ(a, W, "copy(n,offset)");
    int so = (int)hx::R(k + 1);
    put(a, A); a.copy(&c, q, d, so); W = A; for (int i = 0; i < q; i++) W[d + i] = so + i < k ? C[so + i] : 0; EQ(a, W, "copy(n,dest,src)");
    put(a, A); a.sort(); W = A; std::sort(W.begin(), W.end()); EQ(a, W, "sort");
    put(a, A); if (n) { unsigned i = hx::R(n), j = hx::R(n); a.swap(i, j); W = A; std::swap(W[i], W[j]); EQ(a, W, "swap(i,j)"); a.set(i, (T)s); W[i] = s; EQ(a, W, "set"); }
    put(a, A); put(b, A); CHK(a == b); if (n) { int i = hx::R(n); b.set(i, (T)o.add(A[i], o.one())); CHECK(!(a == b), "== ignores element %d", i); }
    { vec::Vector<T> e(g, n + 1); for (int i = 0; i <= n; i++) e.set(i, i < n ? (T)A[i] : 0); CHECK(!(a == e) && !(e == a), "== ignores the length"); }
    a.fill((T)s); EQ(a, V(n, s), "fill"); a.zero_fill(); EQ(a, V(n, 0), "zero_fill");
    put(a, A); { vec::Vector<T> cp(a); EQ(cp, A, "copy constructor"); cp.fill((T)o.add(s, o.one())); EQ(a, A, "source after writing the copy");
        vec::Vector<T> as(g, 3); as = a; EQ(as, A, "assignment"); as.zero_fill(); EQ(a, A, "source after writing the assigned copy"); as = as; CHK(as.get_n() == n);
        vec::Vector<T> mv(std::move(cp)); CHK(mv.get_n() == n); vec::Vector<T> ma(g, 2); put(mv, B); ma = std::move(mv); EQ(ma, B, "move assignment");
        vec::Vector<T> s1(a), s2(ma); swap(s1, s2); EQ(s1, B, "swap"); EQ(s2, A, "swap"); }
    a.rand(); for (int i = 0; i < n; i++) CHK(g.check(a.get(i)));
    if (n >= 3) { vec::Vector<T> il(g, {(T)A[0], (T)A[1], (T)A[2]}); CHK(il.get_n() == 3 && (E)il.get(0) == A[0] && (E)il.get(2) == A[2]); }
}
template <typename T> void setp(vec::Poly<T>& p, const V& c) { p.zero_fill(); for (size_t i = 0; i < c.size(); i++) p.set((int)i, (T)c[i]); }
static int deg(const V& c) { int d = (int)c.size() - 1; while (d >= 0 && !c[d]) d--; return d; }
template <typename T> void isp(vec::Poly<T>& p, V c, const char* w)
{
    V g; for (int i = 0; i < p.get_n(); i++) g.push_back((E)p.get(i));
    c.resize(p.get_n(), 0);
    if (g != c) hx::fail("%s: got %s expected %s", w, hx::LST(g).c_str(), hx::LST(c).c_str());
    CHECK(p.get_deg() >= deg(c) && p.get_deg() < p.get_n(), "%s: get_deg()=%d, degree is %d", w, p.get_deg(), deg(c));
}
template <typename T> void polys(const gf::Field<T>& g, const FO& o, int na, int nb)
{
    int N = na + nb + 3; V A = o.rv(na), B = o.rv(nb);
    hx::at("%s %d-bit polynomials %s and %s", o.name.c_str(), (int)sizeof(T) * 8, hx::LST(A).c_str(), hx::LST(B).c_str());
    vec::Poly<T> a(g, N), b(g, N); setp(a, A); setp(b, B);
    CHECK(a.get_deg() == deg(A), "get_deg()=%d, degree is %d", a.get_deg(), deg(A)); isp(a, A, "set");
    E x = o.rnd();
    CHECK((E)a.eval((T)x) == o.eval(A, x), "eval at %s", SC(x)); CHECK((E)a.eval(0) == (na ? A[0] : 0), "eval at 0"); isp(a, A, "eval operand");
    { vec::Poly<T> c(a); isp(c, A, "copy constructor"); V W = A; for (auto& v : W) v = o.sub(0, v); c.neg(); isp(c, W, "neg"); isp(a, A, "source of a copy"); }
    { vec::Poly<T> c(a); V W; for (int i = 1; i < na; i++) W.push_back(o.times(i, A[i])); if (o.kind == 2) c.derivative_nf4(); else c.derivative(); isp(c, W, "derivative"); }
    if (o.kind != 2) { vec::Poly<T> c(a); V W; for (int i = 1; i < na; i++) W.push_back(o.times(i, A[i])); c.derivative_nf4(); isp(c, W, "derivative_nf4"); }
    { vec::Poly<T> c(a); V W(na + 1, 0); for (int i = 0; i < na; i++) { W[i + 1] = o.add(W[i + 1], A[i]); W[i] = o.add(W[i], o.mul(A[i], x)); } c.mul_to_x_plus_coef((T)x); isp(c, W, "mul_to_x_plus_coef"); if (deg(A) >= 0) CHECK(c.get_deg() == deg(A) + 1, "degree of the product by a linear factor"); }
    for (int D : {0, (int)hx::R(N), na + nb, N - 1}) {
        vec::Poly<T> c(a); V W(D + 1, 0); for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) if (i + j <= D) W[i + j] = o.add(W[i + j], o.mul(A[i], B[j]));
        c.mul(&b, D); isp(c, W, "mul"); isp(b, B, "mul operand");
    }
    { vec::Poly<T> c(a); int D = N - 1; V W(2 * na + 1, 0); for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) W[i + j] = o.add(W[i + j], o.mul(A[i], A[j])); W.resize(D + 1, 0); c.mul(&c, D); isp(c, W, "square"); }
    a.zero_fill(); isp(a, V(), "zero_fill"); CHECK(a.get_deg() == -1, "degree after zero_fill is %d", a.get_deg());
    if (na) { setp(a, A); a.set_deg(na - 1); CHK(a.get_deg() == na - 1); a.set(0, (T)x); CHK((E)a.get(0) == x); }
    // build prod (X - x_i) the way the decoders do, all roots evaluate to zero
    setp(a, V{o.one()}); V R; for (int i = 0; i < nb; i++) { R.push_back(o.rnd()); a.mul_to_x_plus_coef((T)o.sub(0, R[i])); }
    V W{o.one()}; for (E r : R) { V X(W.size() + 1, 0); for (size_t i = 0; i < W.size(); i++) { X[i + 1] = o.add(X[i + 1], W[i]); X[i] = o.sub(X[i], o.mul(r, W[i])); } W = X; }
    isp(a, W, "product of linear factors"); for (E r : R) CHK((E)a.eval((T)r) == 0);
}
template <typename T> void all(const gf::Field<T>& g, const FO& o)
{
    for (int n = 0; n < 40; n++) for (int r = 0; r < 4; r++) vectors<T>(g, o, n);
    for (int i = 0; i < 150 * hx::scale(); i++) vectors<T>(g, o, 40 + (int)hx::R(60));
    for (int na = 0; na < 9; na++) for (int nb = 0; nb < 7; nb++) polys<T>(g, o, na, nb);
    for (int i = 0; i < 100 * hx::scale(); i++) polys<T>(g, o, (int)hx::R(20), (int)hx::R(20));
    // degrees beyond the characteristic
    if (o.kind == 0 && o.m < 300) polys<T>(g, o, (int)o.m + 3, 2);
}
SEC(p32) { for (uint32_t p : {3u, 5u, 257u, 65537u, 4294967291u}) { auto g = gf::create<gf::Prime<uint32_t>>(p); all<uint32_t>(g, FO::ring(p)); } }
SEC(p16) { for (uint16_t p : {3, 257}) { auto g = gf::create<gf::Prime<uint16_t>>(p); all<uint16_t>(g, FO::ring(p)); } }
SEC(p64) { for (uint64_t p : std::vector<uint64_t>{257, 65537, 9223372036854775837ull}) { auto g = gf::create<gf::Prime<uint64_t>>(p); all<uint64_t>(g, FO::ring(p)); } }
SEC(b32) { for (uint32_t n : {4, 8, 16, 32}) { auto g = gf::create<gf::BinExtension<uint32_t>>(n); all<uint32_t>(g, FO::bin(n)); } }
SEC(b64) { for (uint64_t n : {8, 64}) { auto g = gf::create<gf::BinExtension<uint64_t>>(n); all<uint64_t>(g, FO::bin(n)); } }
SEC(b128) { for (int n : {8, 128}) { auto g = gf::create<gf::BinExtension<__uint128_t>>((__uint128_t)n); all<__uint128_t>(g, FO::bin(n)); } }
SEC(nf64) { for (unsigned n : {1, 2}) { auto g = gf::create<gf::NF4<uint64_t>>(n); all<uint64_t>(g, FO::nf4(n)); } }
SEC(nf128) { for (unsigned n : {4}) { auto g = gf::create<gf::NF4<__uint128_t>>(n); all<__uint128_t>(g, FO::nf4(n)); } }
HX_MAIN
