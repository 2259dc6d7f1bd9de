// Additive FFT over GF(2^n): values on the span of the basis, inverse, Taylor expansions
#include "quadiron.h"
#include "gf_bin_ext.h"
#include "fft_add.h"
#include "qdv.h"
using namespace quadiron;
#include "bufs.h"

template <typename T>
struct World {
    gf::BinExtension<T> gf;
    uint64_t ring;
    T card;
    int m, n;
    T basis[8];
    World(unsigned bits, int m, bool own) : gf(bits), ring((1ull << 63) | bits), card(bits < 8 * sizeof(T) ? T(T(1) << (bits % (8 * sizeof(T)))) : T(0)), m(m), n(1 << m)
    {
        gf.init();
        // g, g^2, ..., 1; or, when it is given, 1, g^3, g, g^5...
        const T g = gf.get_primitive_root();
        T x = g;
        for (int i = 0; i < m; i++, x = gf.mul(x, g))
            basis[i] = i == m - 1 ? 1 : x;
        if (own)
            for (int i = 0; i < m; i++)
                basis[i] = i == 0 ? 1 : gf.exp(g, T(i * 2 + 1));
    }
    std::shared_ptr<vec::Vector<T>> given()
    {
        auto b = std::make_shared<vec::Vector<T>>(gf, m);
        for (int i = 0; i < m; i++)
            b->set(i, basis[i]);
        return b;
    }
    T point(int i)
    {
        T x = 0;
        for (int j = 0; j < m; j++)
            if (i >> j & 1)
                x ^= basis[j];
        return x;
    }
    T value(const T* c, int len, T x)
    {
        T s = c[len - 1];
        for (int i = len - 1; i-- > 0;)
            s = gf.add(gf.mul(s, x), c[i]);
        return s;
    }
};
template <typename T>
void c_fft(unsigned bits, int m, bool own, int len)
{
    World<T> w(bits, m, own);
    fft::Additive<T> f(w.gf, T(m), own ? w.given() : nullptr);
    AnyVector<T> x(w.gf, len, "x", w.card), y(w.gf, w.n, "y");
    if (len == w.n) {
        f.fft(y.v, x.v);
    } else {
        vec::ZeroExtended<T> in(x.v, w.n);
        f.fft(y.v, in);
    }
    for (int i = 0; i < w.n; i++)
        ring_eq(y.p[i], w.value(x.old, len, w.point(i)), w.ring, "value of the polynomial at point i of the span");
    for (int i = 0; i < len; i++)
        __qdv_assert(x.p[i] == x.old[i], "the input is unchanged");
}
template <typename T>
void c_ifft(unsigned bits, int m, bool own, bool direct)
{
    World<T> w(bits, m, own);
    fft::Additive<T> f(w.gf, T(m), own ? w.given() : nullptr);
    AnyVector<T> y(w.gf, w.n, "y", w.card), x(w.gf, w.n, "x");
    if (direct)
        f.fft_inv(x.v, y.v);
    else
        f.ifft(x.v, y.v);
    for (int i = 0; i < w.n; i++)
        ring_eq(w.value(x.p, w.n, w.point(i)), y.old[i], w.ring, "the polynomial found has the given values");
    for (int i = 0; i < w.n; i++)
        __qdv_assert(y.p[i] == y.old[i], "the input is unchanged");
}
template <typename T>
void c_span(unsigned bits, int m, bool own)
{
    World<T> w(bits, m, own);
    fft::Additive<T> f(w.gf, T(m), own ? w.given() : nullptr);
    AnyVector<T> b(w.gf, w.n, "b");
    f.compute_B(b.v);
    for (int i = 0; i < w.n; i++)
        __qdv_assert(b.p[i] == w.point(i), "the span in natural binary order");
}
// coefficient k of sum h_i (x^t - x)^i is that of the polynomial; then back
template <typename T>
void c_taylor(unsigned bits, int m, int t, int len)
{
    World<T> w(bits, m, false);
    fft::Additive<T> f(w.gf, T(m));
    const int padded = (len + t - 1) / t * t;
    AnyVector<T> x(w.gf, len, "x", w.card), h(w.gf, padded, "h"), back(w.gf, len, "back");
    f.taylor_expand(h.v, x.v, len, t);
    // Horner: s = s * (x^t - x) + h_i
    T s[64];
    for (int i = 0; i < 64; i++)
        s[i] = 0;
    for (int i = padded / t; i-- > 0;) {
        for (int k = padded; k-- > 0;)
            s[k] = w.gf.add(k >= t ? s[k - t] : T(0), k >= 1 ? s[k - 1] : T(0));
        for (int k = 0; k < t; k++)
            s[k] = w.gf.add(s[k], h.p[i * t + k]);
    }
    for (int k = 0; k < padded; k++)
        ring_eq(s[k], k < len ? x.old[k] : T(0), w.ring, "the expansion is the polynomial");
    f.inv_taylor_expand(back.v, h.v, t);
    for (int k = 0; k < len; k++)
        ring_eq(back.p[k], x.old[k], w.ring, "the inverse gives the polynomial back");
}
template <typename T>
void c_taylor2(unsigned bits, int m, int len)
{
    World<T> w(bits, m, false);
    fft::Additive<T> f(w.gf, T(m));
    AnyVector<T> x(w.gf, len, "x", w.card), back(w.gf, len, "back");
    f.taylor_expand_t2(x.v, len);
    T s[64];
    for (int i = 0; i < 64; i++)
        s[i] = 0;
    for (int i = len / 2; i-- > 0;) {
        for (int k = len; k-- > 0;)
            s[k] = w.gf.add(k >= 2 ? s[k - 2] : T(0), k >= 1 ? s[k - 1] : T(0));
        s[0] = w.gf.add(s[0], f.g0->get(i));
        s[1] = w.gf.add(s[1], f.g1->get(i));
    }
    for (int k = 0; k < len; k++)
        ring_eq(s[k], x.old[k], w.ring, "the expansion is the polynomial");
    if (len == w.n) {
        f.inv_taylor_expand_t2(back.v);
        for (int k = 0; k < len; k++)
            ring_eq(back.p[k], x.old[k], w.ring, "the inverse gives the polynomial back");
    }
}
#define ADD(T, b, m)                                                              \
    CONTRACT(fft_##b##_##m) { c_fft<T>(b, m, false, 1 << m); }                     \
    CONTRACT(fft_own_##b##_##m) { c_fft<T>(b, m, true, 1 << m); }                  \
    CONTRACT(fft_short_##b##_##m) { c_fft<T>(b, m, false, (1 << m) * 5 / 8 + 1); } \
    CONTRACT(ifft_##b##_##m) { c_ifft<T>(b, m, false, false); }                    \
    CONTRACT(fft_inv_own_##b##_##m) { c_ifft<T>(b, m, true, true); }               \
    CONTRACT(span_##b##_##m) { c_span<T>(b, m, false); }                           \
    CONTRACT(span_own_##b##_##m) { c_span<T>(b, m, true); }
ADD(uint32_t, 8, 1)
ADD(uint32_t, 8, 2)
ADD(uint32_t, 8, 3)
ADD(uint32_t, 16, 4)
ADD(uint32_t, 8, 5)
ADD(uint64_t, 32, 2)
ADD(uint64_t, 32, 4)
#define TAYLOR(m, t, len) CONTRACT(taylor_##m##_##t##_##len) { c_taylor<uint32_t>(8, m, t, len); }
TAYLOR(2, 2, 4) TAYLOR(3, 2, 5) TAYLOR(3, 3, 8) TAYLOR(3, 4, 7) TAYLOR(4, 3, 13) TAYLOR(4, 5, 16) TAYLOR(5, 2, 32) TAYLOR(5, 7, 30) TAYLOR(2, 5, 3) TAYLOR(3, 2, 1)
#define TAYLOR2(m, len) CONTRACT(taylor2_##m##_##len) { c_taylor2<uint32_t>(8, m, len); }
TAYLOR2(1, 2) TAYLOR2(2, 4) TAYLOR2(3, 4) TAYLOR2(3, 8) TAYLOR2(4, 16) TAYLOR2(5, 8) TAYLOR2(5, 32)
