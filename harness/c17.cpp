// C17: slices, views, zero-extended views, buffer sets.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
typedef std::vector<uint64_t> V;
#define EQV(v, w, what) do { V g_; for (int i_ = 0; i_ < (v).get_n(); i_++) g_.push_back((v).get(i_)); if (g_ != (w)) hx::fail("%s: got %s expected %s", what, hx::LST(g_).c_str(), hx::LST(w).c_str()); } while (0)

template <typename T> void slices(const gf::RingModN<T>& g, uint64_t p, int N)
{
    V X; for (int i = 0; i < N; i++) X.push_back(1 + hx::R(p - 1));
    auto load = [&](vec::Vector<T>& v) { for (int i = 0; i < N; i++) v.set(i, (T)X[i]); };
    vec::Vector<T> v(g, N); load(v);
    for (int rep = 0; rep < 8; rep++) {
        int n = (int)hx::R(N + 1), off = (int)hx::R(N + 1);
        hx::at("slice of %d elements: n=%d offset=%d", N, n, off);
        int en = n + off < N ? n : N - off;
        vec::Slice<T> s(&v, n, off);
        CHECK(s.get_n() == en, "slice get_n %d expected %d", s.get_n(), en); CHK(s.get_offset() == off);
        EQV(s, V(X.begin() + off, X.begin() + off + en), "slice");
        if (en) { int i = (int)hx::R(en); T w = (T)hx::R(p); s.set(i, w); V Y = X; Y[off + i] = w; EQV(v, Y, "vector after slice set"); CHK(s.get(i) == w); load(v); }
        { vec::Vector<T> o(g, n + 3); o.fill((T)5); o.copy(&s, en); for (int i = 0; i < en; i++) CHK(o.get(i) == X[off + i]); CHK(o.get(en) == 5); }
        s.zero_fill(); { V Y = X; std::fill(Y.begin() + off, Y.begin() + off + en, 0); EQV(v, Y, "vector after slice zero_fill"); } load(v);
        s.fill((T)3); { V Y = X; std::fill(Y.begin() + off, Y.begin() + off + en, 3); EQV(v, Y, "vector after slice fill"); } load(v);
        int off2 = (int)hx::R(N + 1);
        hx::at("slice of %d elements: n=%d offset=%d then set_map %d", N, n, off, off2);
        int en2 = en + off2 < N ? en : N - off2;
        s.set_map(off2); CHECK(s.get_n() == en2, "set_map get_n %d expected %d", s.get_n(), en2); CHK(s.get_offset() == off2);
        EQV(s, V(X.begin() + off2, X.begin() + off2 + en2), "slice after set_map");
        if (en2) { int i = (int)hx::R(en2); s.set(i, 7); V Y = X; Y[off2 + i] = 7; EQV(v, Y, "vector after mapped slice set"); load(v); }
        // many re-mappings, as the sliding uses do
        vec::Slice<T> t(&v, en, 0); for (int o = 0; o + en <= N; o++) { t.set_map(o); EQV(t, V(X.begin() + o, X.begin() + o + en), "slid slice"); }
        // zero extension
        int zn = (int)hx::R(2 * N + 4);
        hx::at("zero-extended view: %d elements of a vector of %d", zn, N);
        vec::ZeroExtended<T> z(v, zn); CHK(z.get_n() == zn);
        V Z = X; Z.resize(zn, 0); EQV(z, Z, "zero-extended");
        // index-mapped view
        if (N) {
            int vn = (int)hx::R(N + 1), vo = (int)hx::R(2 * N), st = 1 + (int)hx::R(2 * N);
            hx::at("view of %d elements: n=%d offset=%d step=%d", N, vn, vo, st);
            vec::View<T> w(&v, vn, vo, st); CHK(w.get_n() == vn);
            V Y; for (int i = 0; i < vn; i++) Y.push_back(X[(vo + (size_t)st * i) % N]); EQV(w, Y, "view");
            if (vn) { int i = (int)hx::R(vn); w.set(i, 9); V Q = X; Q[(vo + (size_t)st * i) % N] = 9; EQV(v, Q, "vector after view set"); load(v); }
            vo = (int)hx::R(N); st = 1 + (int)hx::R(N); w.set_map(vo, st); int l = (int)hx::R(N + 1); w.set_len(l); CHK(w.get_n() == l);
            Y.clear(); for (int i = 0; i < l; i++) Y.push_back(X[(vo + (size_t)st * i) % N]); EQV(w, Y, "view after set_map/set_len");
            int N2 = l + (int)hx::R(4); if (N2) { vec::Vector<T> v2(g, N2); V X2; for (int i = 0; i < N2; i++) { X2.push_back(hx::R(p)); v2.set(i, (T)X2[i]); }
                w.set_vec(&v2); Y.clear(); for (int i = 0; i < l; i++) Y.push_back(X2[(vo + (size_t)st * i) % N2]); EQV(w, Y, "view after set_vec");
                if (l) { w.set(l - 1, 4); CHK(v2.get((vo + (size_t)st * (l - 1)) % N2) == 4); EQV(v, X, "former vector after set_vec"); } }
        }
    }
    EQV(v, X, "vector after the death of its views");
    { // ownership: foreign memory is never released
        std::vector<T> own(N + 1, 6); vec::Vector<T>* f = new vec::Vector<T>(g, N, own.data(), N); f->fill(2); delete f;
        for (int i = 0; i < N; i++) CHK(own[i] == 2); CHK(own[N] == 6);
        vec::Vector<T> q(g, N); q.set_mem(own.data(), N); q.fill(1); for (int i = 0; i < N; i++) CHK(own[i] == 1);
    }
}
SEC(views)
{
    gf::Prime<uint32_t> g32 = gf::create<gf::Prime<uint32_t>>(65537);
    gf::Prime<uint64_t> g64 = gf::create<gf::Prime<uint64_t>>(4294967291ULL);
    auto g16 = gf::create<gf::BinExtension<uint16_t>>(8);
    for (int r = 0; r < 3 * hx::scale(); r++)
        for (int N : {0, 1, 2, 3, 4, 7, 8, 9, 16, 33, 100}) { slices<uint32_t>(g32, 65537, N); slices<uint64_t>(g64, 4294967291ULL, N); slices<uint16_t>(g16, 256, N); }
    // large: index times step beyond 16 bits
    { auto g = gf::create<gf::BinExtension<uint16_t>>(8); int N = 40000; vec::Vector<uint16_t> v(g, N); for (int i = 0; i < N; i++) v.set(i, (uint16_t)(i * 7 % 256));
      hx::at("view of 40000 16-bit elements, step 3"); vec::View<uint16_t> w(&v, N, 5, 3); for (int i = 0; i < N; i++) CHK(w.get(i) == (uint16_t)((5 + 3L * i) % N * 7 % 256)); }
}

template <typename T> struct BS {
    typedef std::vector<std::vector<T>> M;
    static M rnd(int n, size_t sz) { M m(n, std::vector<T>(sz)); for (auto& r : m) for (auto& x : r) x = (T)hx::R(); return m; }
    static void load(vec::Buffers<T>& b, const M& m) { for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) b.get((int)i)[j] = m[i][j]; }
    static void is(const vec::Buffers<T>& b, const M& m, size_t sz, const char* w)
    {
        CHECK(b.get_n() == (int)m.size() && b.get_size() == sz && b.get_mem().size() == m.size(), "%s: %d buffers of %zu, expected %zu of %zu", w, b.get_n(), b.get_size(), m.size(), sz);
        for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < sz; j++) CHECK(b.get((int)i)[j] == m[i][j], "%s: buffer %zu element %zu is %s expected %s", w, i, j, hx::SC((hx::u128)b.get((int)i)[j]), hx::SC((hx::u128)m[i][j]));
    }
    static void run(int n, size_t sz)
    {
        hx::at("%d buffers of %zu %d-bit elements", n, sz, (int)sizeof(T) * 8);
        M A = rnd(n, sz); std::vector<T> zero(sz, 0);
        vec::Buffers<T> a(n, sz); load(a, A); is(a, A, sz, "buffers"); CHK(a.get_mem_len() == n * (int)sz);
        for (int i = 0; i < n; i++) { CHK(simd::addr_is_aligned(a.get(i))); for (int j = 0; j < i; j++) CHK(a.get(i) + sz <= a.get(j) || a.get(j) + sz <= a.get(i) || !sz); }
        { vec::Buffers<T> c(a); is(c, A, sz, "copy"); CHECK(c.get_mem_len() == n * (int)sz, "mem_len of a copy is %d", c.get_mem_len()); c.zero_fill(); is(c, M(n, zero), sz, "zero_fill"); is(a, A, sz, "source of a copy");
          if (n) { int i = (int)hx::R(n); c.fill(i, (T)77); M W(n, zero); W[i].assign(sz, (T)77); is(c, W, sz, "fill"); } }
        { int m = 1 + (int)hx::R(2 * n + 2); hx::at("copy of %d buffers of %zu as %d", n, sz, m); vec::Buffers<T> c(a, m); M W = A; W.resize(m, zero); is(c, W, sz, "resized copy"); CHK(c.get_mem_len() == m * (int)sz); c.fill(m - 1, (T)9); is(a, A, sz, "source of a resized copy"); }
        { vec::Buffers<T> c(2, sz + 1); c.zero_fill(); c = a; is(c, A, sz, "assignment"); c.zero_fill(); is(a, A, sz, "source of an assignment"); }
        if (n) {
            int b = (int)hx::R(n + 2), e = b + 1 + (int)hx::R(n + 2); hx::at("slice [%d,%d) of %d buffers of %zu", b, e, n, sz);
            M W; for (int i = b; i < e; i++) W.push_back(i < n ? A[i] : zero);
            { vec::Buffers<T> s(a, b, e); is(s, W, sz, "slice"); CHK(s.get_mem_len() == (e - b) * (int)sz);
              for (int i = b; i < e && i < n; i++) CHK(s.get(i - b) == a.get(i));
              if (b < n && sz) { s.get(0)[sz - 1] = (T)~A[b][sz - 1]; M Q = A; Q[b][sz - 1] = (T)~A[b][sz - 1]; is(a, Q, sz, "write through a slice"); load(a, A); }
              vec::Buffers<T> d(s); is(d, W, sz, "copy of a slice"); d.zero_fill(); is(a, A, sz, "source after writing a copy of a slice"); }
            is(a, A, sz, "buffers after the death of a slice");
        }
        { int n2 = (int)hx::R(6); hx::at("concatenation of %d and %d buffers of %zu", n, n2, sz); M B = rnd(n2, sz); vec::Buffers<T> b(n2, sz); load(b, B);
          { vec::Buffers<T> c(a, b); M W = A; W.insert(W.end(), B.begin(), B.end()); is(c, W, sz, "concatenation"); for (int i = 0; i < n2; i++) CHK(c.get(n + i) == b.get(i)); vec::Buffers<T> e(c, n ? n - 1 : 0, n + n2 + 1); M Y(W.begin() + (n ? n - 1 : 0), W.end()); Y.push_back(zero); is(e, Y, sz, "slice of a concatenation"); }
          is(a, A, sz, "first part after the death of a concatenation"); is(b, B, sz, "second part after the death of a concatenation"); }
        if (n) { // shuffled, with or without zero extension
            auto g = gf::create<gf::Prime<uint32_t>>(65537);
            int total = n + (hx::coin() ? 0 : (int)hx::R(n + 3)); std::vector<int> perm(total); for (int i = 0; i < total; i++) perm[i] = i; std::shuffle(perm.begin(), perm.end(), hx::rng());
            gf::BinExtension<T>* gt = nullptr; (void)gt;
            hx::at("shuffle of %d buffers of %zu in %d, map %s", n, sz, total, hx::LST(perm).c_str());
            shuffle(a, A, n, sz, total, perm); is(a, A, sz, "buffers after the death of a shuffle");
        }
        { hx::at("set/copy/swap in %d buffers of %zu", n, sz); std::vector<T*> own; M B = rnd(n, sz); std::vector<std::vector<T>> store(n); for (int i = 0; i < n; i++) { store[i] = B[i]; store[i].resize(sz + 1); own.push_back(store[i].data()); }
          { vec::Buffers<T> f(n, sz, own); is(f, B, sz, "foreign buffers"); CHK(f.get_mem_len() == n * (int)sz); f.copy(a); is(f, A, sz, "copy(buffers)"); for (int i = 0; i < n; i++) CHK(f.get(i) == own[i] && std::equal(A[i].begin(), A[i].end(), own[i]));
            if (n) { int i = (int)hx::R(n), j = (int)hx::R(n); f.copy(i, a.get(j)); M W = A; W[i] = A[j]; is(f, W, sz, "copy(i,buf)"); f.swap(i, j); std::swap(W[i], W[j]); is(f, W, sz, "swap"); f.swap(i, j);
                std::vector<T> other(sz + 1, (T)3); f.set(i, other.data()); std::swap(W[i], W[j]); W[i].assign(sz, (T)3); is(f, W, sz, "set"); CHK(f.get(i) == other.data()); f.set(i, own[i]); } }
          is(a, A, sz, "source of copies"); 
          if (n) { vec::Buffers<T> c(a); int i = (int)hx::R(n); simd::AlignedAllocator<T> al; T* nb = al.allocate(sz); std::fill_n(nb, sz, (T)1); c.set(i, nb); M W = A; W[i].assign(sz, (T)1); is(c, W, sz, "set on owned buffers"); } 
          if (n) { int m = n + 2; vec::Buffers<T> c(a, 0, m); c.set(m - 1, a.get(0)); c.set(0, a.get(n - 1)); CHK(c.get(0) == a.get(n - 1)); } is(a, A, sz, "buffers after set on an extended slice"); }
        { vec::Buffers<T> c(a); CHK(c == a); if (n && sz) { int i = (int)hx::R(n); size_t j = hx::R(sz); c.get(i)[j] ^= 1; CHECK(!(c == a) && !(a == c), "== ignores element %zu of buffer %d", j, i); } vec::Buffers<T> d(a, n + 1); CHK(!(d == a) && !(a == d)); }
        if (n % 2 == 0) {
            M W; for (int i = 0; i < n; i += 2) W.push_back(A[i]); for (int i = 1; i < n; i += 2) W.push_back(A[i]);
            hx::at("separate_even_odd of %d buffers of %zu", n, sz);
            { vec::Buffers<T> c(a); c.separate_even_odd(); is(c, W, sz, "separate_even_odd"); }
            { std::vector<T*> none(n / 2, nullptr); vec::Buffers<T> ev(n / 2, sz, none), od(n / 2, sz, none); a.separate_even_odd(ev, od); is(ev, M(W.begin(), W.begin() + n / 2), sz, "even"); is(od, M(W.begin() + n / 2, W.end()), sz, "odd"); is(a, A, sz, "separate_even_odd source"); }
        }
        { auto* c = vec::cast_mem_of_vecp<T, uint8_t>(&a); CHK((int)c->size() == n); for (int i = 0; i < n; i++) CHK((void*)c->at(i) == (void*)a.get(i)); delete c; }
    }
    template <typename B> static void shuffle(B& a, const M& A, int n, size_t sz, int total, const std::vector<int>& perm);
};
template <typename T> struct Fld { typedef gf::Prime<T> G; static G mk() { return gf::create<G>((T)65521); } };
template <> struct Fld<__uint128_t> { typedef gf::Prime<__uint128_t> G; static G mk() { return gf::create<G>((__uint128_t)65537); } };
template <typename T> template <typename B> void BS<T>::shuffle(B& a, const M& A, int n, size_t sz, int total, const std::vector<int>& perm)
{
    auto g = Fld<T>::mk();
    vec::Vector<T> map(g, n); for (int i = 0; i < n; i++) map.set(i, (T)perm[i]);
    vec::Buffers<T> s(a, map, (unsigned)total);
    M W(total, std::vector<T>(sz, 0)); for (int i = 0; i < n; i++) W[perm[i]] = A[i];
    is(s, W, sz, "shuffle"); for (int i = 0; i < n; i++) CHK(s.get(perm[i]) == a.get(i));
}
template <> template <typename B> void BS<uint8_t>::shuffle(B&, const M&, int, size_t, int, const std::vector<int>&) {} // no 8-bit field exists
template <typename T> void buffers() { for (int r = 0; r < 6 * hx::scale(); r++) for (int n : {0, 1, 2, 3, 4, 6, 8, 9, 20}) for (size_t sz : {0, 1, 2, 7, 16, 33}) BS<T>::run(n, sz); }
SEC(buffers8) { buffers<uint8_t>(); }
SEC(buffers16) { buffers<uint16_t>(); }
SEC(buffers32) { buffers<uint32_t>(); }
SEC(buffers64) { buffers<uint64_t>(); }
SEC(buffers128) { buffers<__uint128_t>(); }
HX_MAIN
