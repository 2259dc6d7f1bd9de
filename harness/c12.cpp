// C12: the additive FFT evaluates a polynomial over a linear subspace; Taylor expansions.
#include "common.h"
#include "quadiron.h"
#include "field_oracle.h"
#include "fft_add.h"
using namespace quadiron;
using hx::SC;
typedef FO::E E; typedef std::vector<E> V;
template <typename T> void put(vec::Vector<T>& v, const V& x) { for (size_t i = 0; i < x.size(); i++) v.get_mem()[i] = (T)x[i]; }
template <typename T> V get(const vec::Vector<T>& v) { V r; for (int i = 0; i < v.get_n(); i++) r.push_back((E)v.get(i)); return r; }
#define EQV(g, w, what) do { V g_ = g; V w_ = w; if (g_ != w_) { size_t i_ = 0; while (i_ < g_.size() && i_ < w_.size() && g_[i_] == w_[i_]) i_++; hx::fail("%s: output %zu is %s, expected %s", what, i_, i_ < g_.size() ? SC(g_[i_]) : "missing", i_ < w_.size() ? SC(w_[i_]) : "none"); } } while (0)
static V span(const FO& o, const V& b) { V r{0}; for (auto x : b) { size_t s = r.size(); for (size_t i = 0; i < s; i++) r.push_back(o.add(r[i], x)); } return r; }
// f = sum of h_i(x) (x^t - x)^i, deg h_i < t, by repeated division
static std::vector<V> taylor(const FO& o, V f, int t)
{
    std::vector<V> h;
    do { V q(f.size() > (size_t)t ? f.size() - t : 0); for (size_t i = f.size(); i-- > (size_t)t;) { q[i - t] = f[i]; f[i - t + 1] = o.add(f[i - t + 1], f[i]); f[i] = 0; } V r(f.begin(), f.begin() + std::min(f.size(), (size_t)t)); r.resize(t, 0); h.push_back(r); f = q; } while (!f.empty());
    return h;
}
static bool indep(const V& b) { V s = span(FO::bin(8), b); std::sort(s.begin(), s.end()); return std::unique(s.begin(), s.end()) == s.end(); }
template <typename T> void fftadd(const gf::Field<T>& g, const FO& o, int b, int m)
{
    for (int r = 0; r < 3; r++) {
        bool own = r == 2; int n = 1 << m; V basis; E root = (E)g.get_primitive_root();
        if (own) { do { basis.clear(); for (int i = 0; i < m; i++) basis.push_back(o.rnd()); } while (!indep(basis)); }
        else { for (int i = 0; i + 1 < m; i++) basis.push_back(o.pow(root, i + 1)); basis.push_back(1); if (m == 1) basis = {1}; }
        if (!own && !indep(basis)) continue;
        hx::at("additive FFT over %s (%d bits), m=%d basis=%s", o.name.c_str(), (int)sizeof(T) * 8, m, hx::LST(basis).c_str());
        std::shared_ptr<vec::Vector<T>> bp; if (own) { bp = std::make_shared<vec::Vector<T>>(g, m); put(*bp, basis); }
        fft::Additive<T> f(g, (T)m, bp); CHK(f.get_n() == n);
        V B = span(o, basis); { vec::Vector<T> vb(g, n); put(vb, o.rv(n)); f.compute_B(vb); EQV(get(vb), B, "compute_B"); }
        for (int q = 0; q < 3; q++) {
            int k = q == 0 ? n : 1 + (int)hx::R(n); V x = o.rv(k), full = x; full.resize(n, 0); V a; for (auto e : B) a.push_back(o.eval(x, e));
            vec::Vector<T> in(g, n), out(g, n), back(g, n), sh(g, k); put(in, full); put(out, o.rv(n)); put(back, o.rv(n)); put(sh, x);
            hx::at("additive FFT over %s (%d bits), m=%d basis=%s, coefficients %s", o.name.c_str(), (int)sizeof(T) * 8, m, hx::LST(basis).c_str(), hx::LST(x).c_str());
            f.fft(out, in); EQV(get(out), a, "fft"); EQV(get(in), full, "fft input");
            f.ifft(back, out); EQV(get(back), full, "ifft"); EQV(get(out), a, "ifft input");
            { vec::ZeroExtended<T> z(sh, n); put(out, o.rv(n)); f.fft(out, z); EQV(get(out), a, "fft of a zero-extended input"); EQV(get(sh), x, "fft zero-extended input"); }
            V y = o.rv(n); put(in, y); f.fft_inv(back, in); f.fft(out, back); EQV(get(out), y, "fft of fft_inv");
            // Taylor expansion at x^2 - x
            int d = 1 << hx::R(m + 1); V c = o.rv(d); hx::at("Taylor expansion at x^2-x over %s, m=%d, coefficients %s", o.name.c_str(), m, hx::LST(c).c_str());
            vec::Vector<T> tv(g, d), tb(g, d); put(tv, c); put(tb, o.rv(d)); f.taylor_expand_t2(tv, d); if (d >= 4) { V e; for (auto& h : taylor(o, c, 2)) e.insert(e.end(), h.begin(), h.end()); EQV(get(tv), e, "taylor_expand_t2"); }
            f.inv_taylor_expand_t2(tb); EQV(get(tb), c, "inv_taylor_expand_t2");
            // Taylor expansion at x^t - x
            int t = 2 + (int)hx::R(hx::coin() ? 6 : 30), l = 1 + (int)hx::R(n); V e = o.rv(l); hx::at("Taylor expansion at x^%d-x over %s, m=%d, coefficients %s", t, o.name.c_str(), m, hx::LST(e).c_str());
            int pn = (l + t - 1) / t * t; vec::Vector<T> ti(g, l), to(g, pn), tr(g, l); put(ti, e); put(to, o.rv(pn)); put(tr, o.rv(l));
            f.taylor_expand(to, ti, l, t); EQV(get(ti), e, "taylor_expand input"); V w; for (auto& h : taylor(o, e, t)) w.insert(w.end(), h.begin(), h.end()); w.resize(pn, 0); EQV(get(to), w, "taylor_expand"); f.inv_taylor_expand(tr, to, t); EQV(get(tr), e, "inv_taylor_expand");
        }
    }
}
template <typename T> void run(std::vector<int> bs, int mmax) { for (int b : bs) { auto g = gf::create<gf::BinExtension<T>>((T)b); for (int m = 1; m <= mmax && m <= b; m++) for (int s = 0; s < (m < 6 ? 3 : 1) * hx::scale(); s++) fftadd<T>(g, FO::bin(b), b, m); } }
SEC(gf32) { run<uint32_t>({4, 8, 16, 32}, 8); }
SEC(gf64) { run<uint64_t>({4, 8, 16, 32, 64}, 7); }
SEC(gf128) { run<__uint128_t>({8, 64, 128}, 6); }
SEC(big) { auto g = gf::create<gf::BinExtension<uint32_t>>(16u); fftadd<uint32_t>(g, FO::bin(16), 16, 10); }
HX_MAIN
