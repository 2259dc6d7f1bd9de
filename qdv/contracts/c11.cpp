#include "quadiron.h"
#include "gf_prime.h"
#include "fft_naive.h"
#include "fft_2n.h"
#include "fft_2.h"
#include "fft_single.h"
#include "fft_ct.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "qdv.h"
using namespace quadiron;
#include "bufs.h"

inline uint64_t power(uint64_t b, uint64_t e, uint64_t p)
{
    uint64_t r = 1 % p;
    for (; e; e--)
        r = (unsigned __int128)r * b % p;
    return r;
}
// value of the polynomial with coefficients x at w^j
template <typename T>
T eval(const gf::Prime<T>& gf, const T* x, int k, uint64_t w, int j, uint64_t p)
{
    T s = 0;
    const T z = T(power(w, j, p));
    for (int i = k - 1; i >= 0; i--)
        s = gf.add(gf.mul(s, z), x[i]);
    return s;
}
template <typename T>
void c_vectors(const gf::Prime<T>& gf, fft::FourierTransform<T>& f, int n, T w, uint64_t p, bool inverse)
{
    AnyVector<T> x(gf, n, "x", T(p)), y(gf, n, "y", T(p));
    if (!inverse) {
        f.fft(y.v, x.v);
        for (int j = 0; j < n; j++)
            ring_eq(y.p[j], eval(gf, x.old, n, w, j, p), p, "fft: output j is the value at the j-th power of the root");
    } else {
        f.fft_inv(y.v, x.v);
        uint64_t iw = power(w, n - 1, p);
        for (int j = 0; j < n; j++)
            ring_eq(y.p[j], eval(gf, x.old, n, iw, j, p), p, "fft_inv: output j is the value at the j-th inverse power of the root");
        AnyVector<T> z(gf, n, "z", T(p));
        f.ifft(z.v, x.v);
        for (int j = 0; j < n; j++)
            ring_eq(gf.mul(z.p[j], T(n)), y.p[j], p, "ifft: n times the output is the output of fft_inv");
    }
    for (int j = 0; j < n; j++)
        __qdv_assert(x.p[j] == x.old[j], "the input is unchanged");
}
template <typename T>
void c_radix2(uint64_t p, int n, int d, bool inverse)
{
    gf::Prime<T> gf{T(p)};
    gf.init();
    fft::Radix2<T> f(gf, n, d);
    c_vectors<T>(gf, f, n, gf.get_nth_root(T(n)), p, inverse);
}
// every packet length
template <typename T>
void c_buffers(const gf::Prime<T>& gf, fft::FourierTransform<T>& f, int n, int k, size_t pkt, T w, uint64_t p, bool inverse)
{
    AnyBuffers<T> x(k, pkt, pkt, "x", T(p)), y(n, pkt, pkt, "y", T(p)), z(n, pkt, pkt, "z", T(p));
    const size_t g = qdv_any<uint64_t>("g");
    __qdv_assume(g < pkt);
    T in[64];
    for (int j = 0; j < k; j++)
        in[j] = x.old[j][g];
    if (!inverse) {
        f.fft(*y, *x);
        for (int j = 0; j < n; j++)
            ring_eq(y.p[j][g], eval(gf, in, k, w, j, p), p, "fft: element g of buffer j is the value at the j-th power of the root");
    } else {
        f.fft_inv(*y, *x);
        uint64_t iw = power(w, n - 1, p);
        for (int j = 0; j < n; j++)
            ring_eq(y.p[j][g], eval(gf, in, k, iw, j, p), p, "fft_inv: element g of buffer j is the value at the j-th inverse power of the root");
        f.ifft(*z, *x);
        for (int j = 0; j < n; j++)
            ring_eq(gf.mul(z.p[j][g], T(n)), y.p[j][g], p, "ifft: n times the output is the output of fft_inv");
    }
    for (int j = 0; j < k; j++)
        __qdv_assert(x.p[j][g] == x.old[j][g], "the input is unchanged");
}
template <typename T>
void c_radix2_buf(uint64_t p, int n, int d, int k, bool inverse)
{
    gf::Prime<T> gf{T(p)};
    gf.init();
    const size_t pkt = qdv_any<uint64_t>("pkt");
    __qdv_assume(pkt > 0 && pkt < (1ull << 40));
    fft::Radix2<T> f(gf, n, d, pkt);
    c_buffers<T>(gf, f, n, k, pkt, gf.get_nth_root(T(n)), p, inverse);
}

template <typename T>
void c_naive(uint64_t p, int n, int e, bool buf, bool inverse)
{
    gf::Prime<T> gf{T(p)};
    gf.init();
    const T w = T(power(gf.get_nth_root(T(n)), e, p));
    if (!buf) {
        fft::Naive<T> f(gf, n, w);
        c_vectors<T>(gf, f, n, w, p, inverse);
    } else {
        const size_t pkt = qdv_any<uint64_t>("pkt");
        __qdv_assume(pkt > 0 && pkt < (1ull << 30));
        fft::Naive<T> f(gf, n, w, pkt);
        c_buffers<T>(gf, f, n, n, pkt, w, p, inverse);
    }
}
template <typename T, template <typename> class F>
void c_fact(uint64_t p, int n, bool inverse)
{
    gf::Prime<T> gf{T(p)};
    gf.init();
    F<T> f(gf, T(n));
    c_vectors<T>(gf, f, n, gf.get_nth_root(T(n)), p, inverse);
}
template <typename T>
void c_large(uint64_t p, int l, int e, bool inverse)
{
    gf::Prime<T> gf{T(p)};
    gf.init();
    const int n = 1 << l;
    const T w = T(power(gf.get_nth_root(T(n)), e, p));
    fft::Large<T> f(gf, l, w);
    c_vectors<T>(gf, f, n, w, p, inverse);
}
template <typename T>
void c_size2(uint64_t p, bool buf, bool inverse)
{
    gf::Prime<T> gf{T(p)};
    gf.init();
    fft::Size2<T> f(gf);
    if (!buf) {
        c_vectors<T>(gf, f, 2, T(p - 1), p, inverse);
    } else {
        const size_t pkt = qdv_any<uint64_t>("pkt");
        __qdv_assume(pkt > 0 && pkt < (1ull << 30));
        c_buffers<T>(gf, f, 2, 2, pkt, T(p - 1), p, inverse);
    }
}
// vectors of every length whose elements but the first are zero
template <typename T>
void c_single(uint64_t p)
{
    gf::Prime<T> gf{T(p)};
    const int n = int(qdv_any<uint32_t>("n")), g = int(qdv_any<uint32_t>("g"));
    __qdv_assume(n > 0 && n < (1 << 30) && uint64_t(n) < p && g >= 0 && g < n);
    fft::Single<T> f(gf, n);
    AnyVector<T> x(gf, n, "x", T(p)), y(gf, n, "y", T(p)), z(gf, n, "z", T(p));
    f.fft(y.v, x.v);
    __qdv_assert(y.p[g] == x.old[0], "every value is the constant coefficient");
    f.fft_inv(z.v, x.v);
    __qdv_assert(z.p[g] == x.old[0], "fft_inv: every value is the constant coefficient");
    f.ifft(z.v, y.v);
    __qdv_assert(z.p[g] == (g ? 0 : x.old[0]), "ifft gives the coefficients back");
    __qdv_assert(x.p[g] == x.old[g], "the input is unchanged");
}
template <typename T>
void c_single_buf(uint64_t p, int n)
{
    gf::Prime<T> gf{T(p)};
    const size_t pkt = qdv_any<uint64_t>("pkt"), g = qdv_any<uint64_t>("g");
    __qdv_assume(g < pkt && pkt < (1ull << 30));
    fft::Single<T> f(gf, n);
    AnyBuffers<T> x(n, pkt, pkt, "x", T(p)), y(n, pkt, pkt, "y", T(p)), z(n, pkt, pkt, "z", T(p));
    f.fft(*y, *x);
    f.fft_inv(*z, *x);
    for (int j = 0; j < n; j++)
        __qdv_assert(y.p[j][g] == x.old[0][g] && z.p[j][g] == x.old[0][g], "every value is the constant coefficient");
    f.ifft(*z, *y);
    for (int j = 0; j < n; j++)
        __qdv_assert(z.p[j][g] == (j ? 0 : x.old[0][g]) && x.p[j][g] == x.old[j][g], "ifft gives the coefficients back");
}
// a vector that is shorter than the transform, directly or as a zero-extended view
template <typename T>
void c_radix2_short(uint64_t p, int n, int d, int k, bool view)
{
    gf::Prime<T> gf{T(p)};
    gf.init();
    fft::Radix2<T> f(gf, n, d);
    AnyVector<T> x(gf, k, "x", T(p)), y(gf, n, "y", T(p));
    if (view) {
        vec::ZeroExtended<T> z(x.v, n);
        f.fft(y.v, z);
    } else {
        f.fft(y.v, x.v);
    }
    const T w = gf.get_nth_root(T(n));
    for (int j = 0; j < n; j++)
        ring_eq(y.p[j], eval(gf, x.old, k, w, j, p), p, "fft: output j is the value at the j-th power of the root");
    for (int j = 0; j < k; j++)
        __qdv_assert(x.p[j] == x.old[j], "the input is unchanged");
}
#define BOTH(name, call)                         \
    CONTRACT(name) { const bool inverse = false; call; } \
    CONTRACT(name##_inv) { const bool inverse = true; call; }
#define RADIX2(T, p, n)                                                                \
    BOTH(radix2_##p##_##n, c_radix2<T>(p, n, n, inverse))                               \
    BOTH(radix2_buf_##p##_##n, c_radix2_buf<T>(p, n, n, n, inverse))
#define SHORT(T, p, n, d, k)                                                                    \
    CONTRACT(radix2_short_##p##_##n##_##d##_##k) { c_radix2_short<T>(p, n, d, k, false); }       \
    CONTRACT(radix2_view_##p##_##n##_##d##_##k) { c_radix2_short<T>(p, n, d, k, true); }         \
    CONTRACT(radix2_buf_short_##p##_##n##_##d##_##k) { c_radix2_buf<T>(p, n, d, k, false); }
#define NAIVE(T, p, n, e)                                                          \
    BOTH(naive_##p##_##n, c_naive<T>(p, n, e, false, inverse))                      \
    BOTH(naive_buf_##p##_##n, c_naive<T>(p, n, e, true, inverse))
#define FACT(T, p, n)                                                          \
    BOTH(ct_##p##_##n, (c_fact<T, fft::CooleyTukey>(p, n, inverse)))             \
    BOTH(gt_##p##_##n, (c_fact<T, fft::GoodThomas>(p, n, inverse)))
RADIX2(uint16_t, 257, 1)
RADIX2(uint16_t, 257, 2)
RADIX2(uint16_t, 257, 4)
RADIX2(uint16_t, 257, 8)
RADIX2(uint32_t, 65537, 8)
RADIX2(uint32_t, 65537, 16)
RADIX2(uint64_t, 3221225473, 8)
BOTH(radix2_65537_32, c_radix2<uint32_t>(65537, 32, 32, inverse))
BOTH(radix2_65537_64, c_radix2<uint32_t>(65537, 64, 64, inverse))
SHORT(uint32_t, 65537, 8, 4, 3)
SHORT(uint32_t, 65537, 16, 4, 4)
SHORT(uint32_t, 65537, 16, 8, 1)
SHORT(uint16_t, 257, 16, 2, 8)
SHORT(uint16_t, 257, 32, 8, 7)
NAIVE(uint32_t, 97, 1, 1)
NAIVE(uint32_t, 97, 3, 2)
BOTH(naive_97_8, c_naive<uint32_t>(97, 8, 3, false, inverse))
NAIVE(uint16_t, 181, 4, 1)
NAIVE(uint64_t, 61, 5, 3)
BOTH(naive_61_15, c_naive<uint64_t>(61, 15, 7, false, inverse))
FACT(uint32_t, 97, 2)
FACT(uint32_t, 97, 6)
FACT(uint32_t, 97, 12)
FACT(uint32_t, 181, 18)
FACT(uint32_t, 61, 30)
FACT(uint16_t, 181, 45)
FACT(uint64_t, 61, 20)
BOTH(large_2, c_large<uint32_t>(97, 1, 1, inverse))
BOTH(large_4, c_large<uint32_t>(97, 2, 3, inverse))
BOTH(large_8, c_large<uint32_t>(257, 3, 1, inverse))
BOTH(large_16, c_large<uint32_t>(97, 4, 5, inverse))
BOTH(large_32, c_large<uint64_t>(97, 5, 1, inverse))
BOTH(size2, c_size2<uint32_t>(65537, false, inverse))
BOTH(size2_buf, c_size2<uint16_t>(257, true, inverse))
CONTRACT(single_16) { c_single<uint16_t>(257); }
CONTRACT(single_32) { c_single<uint32_t>(65537); }
CONTRACT(single_64) { c_single<uint64_t>(61); }
CONTRACT(single_buf_1) { c_single_buf<uint32_t>(65537, 1); }
CONTRACT(single_buf_2) { c_single_buf<uint16_t>(257, 2); }
CONTRACT(single_buf_5) { c_single_buf<uint64_t>(61, 5); }
