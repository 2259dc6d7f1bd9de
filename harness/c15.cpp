// C15: matrix inverse, products, and the MDS property of generator matrices.
#include "common.h"
#include "quadiron.h"
#include "field_oracle.h"
using namespace quadiron;
using hx::SC;
typedef FO::E E; typedef std::vector<E> V; typedef std::vector<V> M;
template <typename T> void put(vec::Matrix<T>& m, const M& a) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) m.set(i, j, (T)a[i][j]); }
template <typename T> M get(vec::Matrix<T>& m) { M a(m.get_n_rows(), V(m.get_n_cols())); for (int i = 0; i < m.get_n_rows(); i++) for (int j = 0; j < m.get_n_cols(); j++) a[i][j] = m.get(i, j); return a; }
static std::string SM(const M& a) { std::string s; for (auto& r : a) s += hx::LST(r, 8); return s.substr(0, 600); }
static M mulm(const FO& o, const M& a, const M& b) { M r(a.size(), V(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) if (a[i][k]) for (size_t j = 0; j < b[0].size(); j++) r[i][j] = o.add(r[i][j], o.mul(a[i][k], b[k][j])); return r; }
static M ident(int n) { M r(n, V(n, 0)); for (int i = 0; i < n; i++) r[i][i] = 1; return r; }

template <typename T> void invert(const gf::RingModN<T>& g, const FO& o, const M& a)
{
    int n = a.size();
    hx::at("%s invert %dx%d matrix %s", o.name.c_str(), n, n, SM(a).c_str());
    vec::Matrix<T> m(g, n, n); put(m, a);
    bool sing = o.rank(a) < n, ref = false;
    try { m.inv(); } catch (const DomainError&) { ref = true; }
    CHECK(ref == sing, sing ? "singular matrix not refused" : "invertible matrix refused");
    if (ref) { CHECK(get(m) == a, "a refused matrix was changed"); return; }
    M b = get(m);
    for (auto& r : b) for (E x : r) CHK(g.check((T)x));
    CHECK(mulm(o, a, b) == ident(n) && mulm(o, b, a) == ident(n), "not the inverse: %s", SM(b).c_str());
}
template <typename T> void matrices(const gf::RingModN<T>& g, const FO& o)
{
    E card = o.top() + 1;
    if (o.kind == 0 && o.m <= 5) for (int n = 1; n <= 3; n++) { // every matrix over a small field
        size_t cells = n * n; uint64_t tot = 1; for (size_t i = 0; i < cells; i++) tot *= o.m; if (tot > 25000) continue;
        for (uint64_t v = 0; v < tot; v++) { M a(n, V(n)); uint64_t t = v; for (auto& r : a) for (auto& x : r) { x = t % o.m; t /= o.m; } invert<T>(g, o, a); }
    }
    (void)card;
    for (int it = 0; it < 120 * hx::scale(); it++) {
        int n = 1 + (int)hx::R(it % 10 == 0 ? 14 : 7); M a(n, V(n));
        for (auto& r : a) for (auto& x : r) x = hx::coin(3) ? 0 : o.rnd();
        if (it % 4 == 1 && n > 1) { int i = hx::R(n), j = hx::R(n); E f = o.rnd(); if (i != j) for (int k = 0; k < n; k++) a[i][k] = o.mul(f, a[j][k]); }
        if (it % 4 == 2) { int c = hx::R(n), d = hx::R(n); for (auto& r : a) r[c] = c == d ? 0 : r[d]; }
        if (it % 8 == 3) { a = ident(n); for (int i = n - 1; i > 0; i--) std::swap(a[i], a[hx::R(i + 1)]); }
        if (it % 8 == 7) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i + j < n - 1) a[i][j] = 0; else if (i + j == n - 1 && !a[i][j]) a[i][j] = 1; }
        invert<T>(g, o, a);
    }
    for (int it = 0; it < 150 * hx::scale(); it++) {
        int r = 1 + hx::R(9), c = 1 + hx::R(9); M a(r, V(c)); for (auto& x : a) x = o.rv(c);
        V v = o.rv(c), w(r, 0); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) w[i] = o.add(w[i], o.mul(a[i][j], v[j]));
        hx::at("%s matrix %s times vector %s", o.name.c_str(), SM(a).c_str(), hx::LST(v).c_str());
        vec::Matrix<T> m(g, r, c); put(m, a); CHK(m.get_n_rows() == r && m.get_n_cols() == c);
        vec::Vector<T> in(g, c), out(g, r); for (int i = 0; i < c; i++) in.set(i, (T)v[i]); for (int i = 0; i < r; i++) out.set(i, 1);
        m.mul(&out, &in);
        for (int i = 0; i < r; i++) CHECK((E)out.get(i) == w[i], "row %d", i);
        for (int i = 0; i < c; i++) CHK((E)in.get(i) == v[i]);
        CHK(get(m) == a); m.zero_fill(); CHK(get(m) == M(r, V(c, 0)));
    }
    for (int r = 1; r < 12; r++) for (int c = 1; c < 9; c++) { if ((E)r > o.top() + 0 || (E)c > o.top()) continue; hx::at("%s vandermonde %dx%d", o.name.c_str(), r, c); vec::Matrix<T> m(g, r, c); m.vandermonde(); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) CHECK((E)m.get(i, j) == o.pow(i, j), "entry %d,%d", i, j); }
}
SEC(inv_ring) { for (uint32_t p : {2u, 3u, 5u, 17u, 257u, 65537u, 4294967291u}) { auto g = gf::create<gf::Prime<uint32_t>>(p); matrices<uint32_t>(g, FO::ring(p)); } }
SEC(inv_ring64) { for (uint64_t p : std::vector<uint64_t>{257, 9223372036854775837ull}) { auto g = gf::create<gf::Prime<uint64_t>>(p); matrices<uint64_t>(g, FO::ring(p)); } }
SEC(inv_bin) { for (uint32_t n : {4, 8, 16, 32}) { auto g = gf::create<gf::BinExtension<uint32_t>>(n); matrices<uint32_t>(g, FO::bin(n)); } }
SEC(inv_bin64) { for (uint64_t n : {8, 64}) { auto g = gf::create<gf::BinExtension<uint64_t>>(n); matrices<uint64_t>(g, FO::bin(n)); } }
// parity part P (m x k): every k rows of [I;P] are independent iff every square submatrix of P is invertible
static uint64_t minors = 0;
static void mds(const FO& o, const M& p, const char* what)
{
    int m = p.size(), k = p[0].size();
    auto sub = [&](const std::vector<int>& R, const std::vector<int>& C) {
        M s; for (int r : R) { V x; for (int c : C) x.push_back(p[r][c]); s.push_back(x); }
        minors++;
        if (o.rank(s) < (int)R.size()) hx::fail("%s over %s, %d parities x %d data: parity rows %s and data columns %s give a singular selection", what, o.name.c_str(), m, k, hx::LST(R).c_str(), hx::LST(C).c_str());
    };
    auto choose = [](int n, int t, std::vector<std::vector<int>>& out) { std::vector<int> c(t); std::function<void(int, int)> f = [&](int i, int s) { if (i == t) { out.push_back(c); return; } for (int x = s; x < n; x++) { c[i] = x; f(i + 1, x + 1); } }; f(0, 0); };
    for (int t = 1; t <= std::min(m, k); t++) {
        std::vector<std::vector<int>> R, C; double cnt = 1; for (int i = 0; i < t; i++) cnt *= (double)(m - i) * (k - i) / (i + 1) / (i + 1);
        if (cnt > 6000) { for (int i = 0; i < 1500 * hx::scale(); i++) { std::vector<int> r(m), c(k); for (int x = 0; x < m; x++) r[x] = x; for (int x = 0; x < k; x++) c[x] = x; std::shuffle(r.begin(), r.end(), hx::rng()); std::shuffle(c.begin(), c.end(), hx::rng()); r.resize(t); c.resize(t); std::sort(r.begin(), r.end()); std::sort(c.begin(), c.end()); sub(r, c); } continue; }
        choose(m, t, R); choose(k, t, C);
        for (auto& r : R) for (auto& c : C) sub(r, c);
    }
}
template <typename T> void gen(const gf::RingModN<T>& g, const FO& o, int m, int k)
{
    if ((E)(m + k) > o.top() + (o.n == 128 ? 0 : 1)) return;
    hx::at("%s generator matrices %d parities, %d data", o.name.c_str(), m, k);
    vec::Matrix<T> c(g, m, k); c.cauchy(); mds(o, get(c), "cauchy");
    vec::Matrix<T> v(g, m, k); v.vandermonde_suitable_for_ec(); mds(o, get(v), "vandermonde_suitable_for_ec");
}
SEC(mds4) { auto g = gf::create<gf::BinExtension<uint32_t>>(4u); FO o = FO::bin(4); for (int m = 1; m < 16; m++) for (int k = 1; m + k <= 16; k++) gen<uint32_t>(g, o, m, k); }
SEC(mds8) { auto g = gf::create<gf::BinExtension<uint32_t>>(8u); FO o = FO::bin(8); for (int m = 1; m <= 8; m++) for (int k = 1; k <= 10; k++) gen<uint32_t>(g, o, m, k); gen<uint32_t>(g, o, 16, 16); gen<uint32_t>(g, o, 3, 40); gen<uint32_t>(g, o, 30, 4); gen<uint32_t>(g, o, 2, 254); gen<uint32_t>(g, o, 128, 2); }
SEC(mds16) { auto g = gf::create<gf::BinExtension<uint32_t>>(16u); FO o = FO::bin(16); for (int m = 1; m <= 5; m++) for (int k = 1; k <= 6; k++) gen<uint32_t>(g, o, m, k); }
SEC(mds64) { auto g = gf::create<gf::BinExtension<uint64_t>>((uint64_t)64); FO o = FO::bin(64); for (int m = 1; m <= 3; m++) for (int k = 1; k <= 4; k++) gen<uint64_t>(g, o, m, k); }
HX_MAIN
