// C11: every multiplicative FFT is the discrete Fourier transform.
#include "common.h"
#include "quadiron.h"
#include "field_oracle.h"
#include "fft_ct.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_naive.h"
#include "fft_single.h"
#include "fft_2.h"
using namespace quadiron;
using hx::SC;
typedef FO::E E; typedef std::vector<E> V; typedef std::vector<V> VV;
template <typename T> void put(vec::Vector<T>& v, const V& x) { for (size_t i = 0; i < x.size(); i++) v.get_mem()[i] = (T)x[i]; }
template <typename T> V get(const vec::Vector<T>& v) { V r; for (int i = 0; i < v.get_n(); i++) r.push_back((E)v.get(i)); return r; }
// sum of x[i] * w^(ij), for j < n
static V dft(const FO& o, const V& x, size_t n, E w) { V r; E a = o.one(); for (size_t j = 0; j < n; j++) { r.push_back(o.eval(x, a)); a = o.mul(a, w); } return r; }
static V scale(const FO& o, V x, E s) { for (auto& c : x) c = o.mul(c, s); return x; }
static void order(const FO& o, E w, int n) { CHECK(o.pow(w, n) == o.one(), "the root %s has not order %d", SC(w), n); for (auto& pe : om::factor(n)) CHECK(o.pow(w, n / pe.first) != o.one(), "the root %s has not order %d", SC(w), n); }
static const char* nm = "";
#define EQV(g, w, what) do { V g_ = g; if (g_ != (w)) { size_t i_ = 0; while (i_ < g_.size() && g_[i_] == (w)[i_]) i_++; hx::fail("%s: output %zu is %s, expected %s; input %s", what, i_, i_ < g_.size() ? SC(g_[i_]) : "missing", i_ < (w).size() ? SC((w)[i_]) : "none", hx::LST(in_).c_str()); } } while (0)
// forward, inverse summation and inverse on vectors. mode bits: 1 zero-extended inputs, 2 short inputs
template <typename T> void vectors(fft::FourierTransform<T>& f, const gf::Field<T>& g, const FO& o, int n, E w, int mode, int in_max, bool inverse = true)
{
    CHK(f.get_n() == n && &f.get_gf() == &g);
    E ninv = o.inv(o.times(n, o.one())), iw = o.inv(w);
    for (int r = 0; r < 4; r++) {
        int k = r == 0 ? n : 1 + (int)hx::R(in_max ? in_max : n); if (in_max && k > in_max) k = in_max;
        if (!mode && !in_max) k = n;
        V x = o.rv(k), full = x; full.resize(n, 0);
        V a = dft(o, x, n, w); const V& in_ = x;
        hx::at("%s over %s (%d bits), n=%d root=%s, input of %d elements", nm, o.name.c_str(), (int)sizeof(T) * 8, n, SC(w), k);
        vec::Vector<T> out(g, n), back(g, n), vx(g, n), vs(g, k); put(out, o.rv(n)); put(back, o.rv(n)); put(vx, full); put(vs, x);
        f.fft(out, vx); EQV(get(out), a, "fft"); EQV(get(vx), full, "fft input");
        if (mode & 1) { vec::ZeroExtended<T> z(vs, n); put(out, o.rv(n)); f.fft(out, z); EQV(get(out), a, "fft, zero-extended input"); EQV(get(vs), x, "fft zero-extended input"); }
        if (mode & 2) { put(out, o.rv(n)); f.fft(out, vs); EQV(get(out), a, "fft, short input"); }
        if (!inverse) continue;
        f.ifft(back, out); { const V& in_ = a; EQV(get(back), full, "ifft"); EQV(get(out), a, "ifft input"); }
        V b = dft(o, x, n, iw); put(back, o.rv(n));
        f.fft_inv(back, vx); EQV(get(back), b, "fft_inv"); EQV(get(vx), full, "fft_inv input");
        put(back, o.rv(n)); f.ifft(back, vx); EQV(get(back), scale(o, b, ninv), "ifft");
        if (mode & 1) { vec::ZeroExtended<T> z(vs, n); put(back, o.rv(n)); f.fft_inv(back, z); EQV(get(back), b, "fft_inv, zero-extended input"); put(back, o.rv(n)); f.ifft(back, z); EQV(get(back), scale(o, b, ninv), "ifft, zero-extended input"); }
    }
}
template <typename T> void bput(vec::Buffers<T>& b, const VV& x, size_t pkt) { for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < pkt; j++) b.get((int)i)[j] = (T)x[i][j]; }
static VV bdft(const FO& o, const VV& x, size_t n, size_t pkt, E w) { VV r(n, V(pkt)); for (size_t j = 0; j < pkt; j++) { V c; for (auto& b : x) c.push_back(b[j]); c = dft(o, c, n, w); for (size_t i = 0; i < n; i++) r[i][j] = c[i]; } return r; }
template <typename T> void beq(vec::Buffers<T>& b, const VV& w, size_t pkt, const char* what) { for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < pkt; j++) CHECK((E)b.get((int)i)[j] == w[i][j], "%s: buffer %zu element %zu is %s, expected %s", what, i, j, SC((E)b.get((int)i)[j]), SC(w[i][j])); }
template <typename T> void buffers(fft::FourierTransform<T>& f, const gf::Field<T>& g, const FO& o, int n, size_t pkt, E w, int k, bool inverse = true)
{
    E ninv = o.inv(o.times(n, o.one())), iw = o.inv(w); VV x, zero(n, V(pkt, 0)); for (int i = 0; i < k; i++) x.push_back(o.rv(pkt)); VV full = x; full.resize(n, V(pkt, 0));
    hx::at("%s buffers over %s (%d bits), n=%d root=%s, %d packets of %zu elements", nm, o.name.c_str(), (int)sizeof(T) * 8, n, SC(w), k, pkt);
    vec::Buffers<T> in(k, pkt), out(n, pkt), back(n, pkt); bput(in, x, pkt); VV junk; for (int i = 0; i < n; i++) junk.push_back(o.rv(pkt)); bput(out, junk, pkt); bput(back, junk, pkt);
    VV a = bdft(o, x, n, pkt, w), b = bdft(o, x, n, pkt, iw), c = b; for (auto& v : c) v = scale(o, v, ninv);
    std::vector<T*> mem(out.get_mem());
    f.fft(out, in); beq(out, a, pkt, "fft"); beq(in, x, pkt, "fft input"); CHECK(mem == out.get_mem(), "fft moves the output buffers");
    if (!inverse) return;
    f.ifft(back, out); beq(back, full, pkt, "ifft of fft"); beq(out, a, pkt, "ifft input"); mem = back.get_mem();
    bput(back, junk, pkt); f.fft_inv(back, in); beq(back, b, pkt, "fft_inv"); beq(in, x, pkt, "fft_inv input"); CHECK(mem == back.get_mem(), "fft_inv moves the output buffers");
    bput(back, junk, pkt); f.ifft(back, in); beq(back, c, pkt, "ifft");
}
static std::vector<size_t> pkts() { return {1, 2, 7, 8, 16, 17, 31, 64, 1 + (size_t)hx::R(100)}; }
static std::vector<int> divisors(uint64_t h, int max) { std::vector<int> r; for (int d = 1; d <= max; d++) if (h % d == 0) r.push_back(d); return r; }
template <typename T> void radix2(const gf::Field<T>& g, const FO& o, int max, bool bufs)
{
    nm = "Radix2";
    for (int n = 1; n <= max; n *= 2) {
        E w = (E)g.get_nth_root((T)n); order(o, w, n);
        for (int d = n <= 32 ? 0 : n / 2; d <= n; d = d ? 2 * d : 1) {
            for (int r = 0; r < 2; r++) {
            hx::at("Radix2 over %s (%d bits), n=%d data_len=%d", o.name.c_str(), (int)sizeof(T) * 8, n, d);
            { fft::Radix2<T> f(g, n, d); vectors<T>(f, g, o, n, w, d == 0 || d == n ? 3 : 1, 0); if (d && d < n) { vectors<T>(f, g, o, n, w, 3, d); vec::Vector<T> v(g, n); } }
            size_t pkt = pkts()[hx::R(9)]; if (n > 64) pkt = 9; int k = 1 + (int)hx::R(d ? d : n); if (r && d && d < n) k = 2 * d;
            if (bufs) { fft::Radix2<T> f(g, n, d, pkt); buffers<T>(f, g, o, n, pkt, w, k); }
            }
        }
    }
}
template <typename T> void naive(const gf::Field<T>& g, const FO& o, int n, bool bufs, bool bigroots = true)
{
    nm = "Naive"; E w = (E)g.get_nth_root((T)n); order(o, w, n); int j; do j = 1 + (int)hx::R(n); while (om::gcd(j, n) != 1); E w2 = o.pow(w, j);
    hx::at("Naive over %s (%d bits), n=%d root=%s", o.name.c_str(), (int)sizeof(T) * 8, n, SC(w2));
    { fft::Naive<T> f(g, n, (T)w2); vectors<T>(f, g, o, n, w2, 1, 0); }
    if (bufs) { size_t pkt = pkts()[hx::R(9)]; fft::Naive<T> f(g, n, (T)w2, pkt); buffers<T>(f, g, o, n, pkt, w2, n); }
    nm = "Single"; hx::at("Single over %s (%d bits), n=%d", o.name.c_str(), (int)sizeof(T) * 8, n);
    { fft::Single<T> f(g, n); V x = o.rv(1), a = V(n, x[0]), z(n, 0); z[0] = x[0]; const V& in_ = x; vec::Vector<T> v(g, n), u(g, n); put(v, z); put(u, o.rv(n)); f.fft(u, v); EQV(get(u), a, "fft"); put(u, o.rv(n)); f.fft_inv(u, v); EQV(get(u), a, "fft_inv"); put(u, a); put(v, o.rv(n)); f.ifft(v, u); EQV(get(v), z, "ifft");
      if (bufs) { size_t pkt = pkts()[hx::R(9)]; vec::Buffers<T> b(n, pkt), c(n, pkt); VV y(n, V(pkt, 0)), yy(n); y[0] = o.rv(pkt); for (auto& q : yy) q = y[0]; bput(b, y, pkt); f.fft(c, b); beq(c, yy, pkt, "fft of buffers"); bput(c, y, pkt); f.fft_inv(c, b); beq(c, yy, pkt, "fft_inv of buffers"); bput(b, yy, pkt); f.ifft(c, b); beq(c, y, pkt, "ifft of buffers"); } }
}
template <typename T> void size2(const gf::Field<T>& g, const FO& o)
{
    nm = "Size2"; E w = o.sub(0, o.one()); for (int r = 0; r < 4; r++) { fft::Size2<T> f(g); vectors<T>(f, g, o, 2, w, 1, 0); size_t pkt = pkts()[hx::R(9)]; buffers<T>(f, g, o, 2, pkt, w, 2); }
}
template <typename T> void fact(const gf::Field<T>& g, const FO& o, int n)
{
    E w = (E)g.get_nth_root((T)n); order(o, w, n);
    nm = "CooleyTukey"; hx::at("CooleyTukey over %s (%d bits), n=%d", o.name.c_str(), (int)sizeof(T) * 8, n);
    { fft::CooleyTukey<T> f(g, (T)n); vectors<T>(f, g, o, n, w, 1, 0); }
    nm = "GoodThomas"; hx::at("GoodThomas over %s (%d bits), n=%d", o.name.c_str(), (int)sizeof(T) * 8, n);
    { fft::GoodThomas<T> f(g, (T)n); vectors<T>(f, g, o, n, w, 1, 0); }
}
template <typename T> void large(const gf::Field<T>& g, const FO& o, int max)
{
    nm = "Large"; for (int l = 1; (1 << l) <= max; l++) { int n = 1 << l; E w = (E)g.get_nth_root((T)n); order(o, w, n); E w2 = o.pow(w, 1 + 2 * hx::R(n)); hx::at("Large over %s (%d bits), n=%d root=%s", o.name.c_str(), (int)sizeof(T) * 8, n, SC(w2)); fft::Large<T> f(g, l, (T)w2); vectors<T>(f, g, o, n, w2, 1, 0); }
}
template <typename T> void prime(uint64_t p, int max, int max2)
{
    auto g = gf::create<gf::Prime<T>>((T)p); auto o = FO::ring(p); int v = 1; while ((p - 1) % (2 * v) == 0 && v < max2) v *= 2;
    radix2<T>(g, o, v, true); large<T>(g, o, v); size2<T>(g, o);
    for (int n : divisors(p - 1, max)) { naive<T>(g, o, n, true); if (n >= 2) fact<T>(g, o, n); }
}
SEC(prime16) { prime<uint16_t>(257, 256, 256); prime<uint16_t>(97, 96, 32); prime<uint16_t>(17, 16, 16); prime<uint16_t>(12289, 48, 64); }
SEC(prime32a) { for (uint64_t p : {3, 5, 7, 11, 13, 17, 31, 37, 61, 73, 97, 181, 193, 241, 257}) prime<uint32_t>(p, 64, 64); }
SEC(prime32b) { for (uint64_t p : {7681ul, 12289ul, 65537ul}) prime<uint32_t>(p, 80, 256); }
SEC(prime32c) { for (uint64_t p : {3221225473ul, 4294967291ul, 2013265921ul, 4294967281ul - 0ul}) if (om::prime(p)) prime<uint32_t>(p, 60, 64); }
SEC(prime64) { for (uint64_t p : {17ul, 97ul, 12289ul, 65537ul, 3221225473ul, 4179340454199820289ul}) prime<uint64_t>(p, 48, 64); }
SEC(fnt_big) { auto g = gf::create<gf::Prime<uint32_t>>(65537u); auto o = FO::ring(65537); nm = "Radix2"; int n = 1024; E w = (E)g.get_nth_root((uint32_t)n); order(o, w, n); for (int d : {1024, 512, 16}) { fft::Radix2<uint32_t> f(g, n, d, 19); vectors<uint32_t>(f, g, o, n, w, 1, 0); buffers<uint32_t>(f, g, o, n, 19, w, 1 + (int)hx::R(d)); } }
template <typename T> void bin(std::vector<int> ns, int max) { for (int b : ns) { auto g = gf::create<gf::BinExtension<T>>((T)b); auto o = FO::bin(b); for (int n : divisors(b >= 64 ? ~0ull : (1ull << b) - 1, max)) { naive<T>(g, o, n, true); if (n >= 2) fact<T>(g, o, n); } } }
SEC(bin32) { bin<uint32_t>({4, 8, 16, 32}, 90); }
SEC(bin64) { bin<uint64_t>({8, 16, 32, 64}, 60); }
SEC(bin128) { bin<__uint128_t>({16, 64}, 20); }
template <typename T> void nf4(int lanes, int max) { auto g = gf::create<gf::NF4<T>>((T)lanes); auto o = FO::nf4(lanes); radix2<T>(g, o, max, true); }
SEC(nf4_32) { nf4<uint32_t>(1, 64); }
SEC(nf4_64) { nf4<uint64_t>(1, 32); nf4<uint64_t>(2, 64); }
SEC(nf4_128) { nf4<__uint128_t>(4, 32); }
HX_MAIN
