// Number theory: the results of the loops of arith.h, for every argument.
#include "quadiron.h"
#include "arith.h"
#include "qdv.h"
using namespace quadiron;

extern "C" {
// the mathematical functions (uninterpreted; their laws are in proofs/c13.py)
uint16_t qdv_pow_16(uint16_t b, uint16_t e, uint16_t m);
uint32_t qdv_pow_32(uint32_t b, uint32_t e, uint32_t m);
uint64_t qdv_pow_64(uint64_t b, uint64_t e, uint64_t m);
uint16_t qdv_wpow_16(uint16_t b, uint16_t e);
uint32_t qdv_wpow_32(uint32_t b, uint32_t e);
uint64_t qdv_wpow_64(uint64_t b, uint64_t e);
uint16_t qdv_gcd_16(uint16_t a, uint16_t b);
uint32_t qdv_gcd_32(uint32_t a, uint32_t b);
uint64_t qdv_gcd_64(uint64_t a, uint64_t b);
int qdv_jacobi_64(uint64_t n, uint64_t m);
int qdv_jacobi_32(uint32_t n, uint32_t m);
}

template <typename T>
void c_sqrt()
{
    const T n = qdv_any<T>("n");
    const T r = arith::sqrt<T>(n);
    const T half = T(1) << (sizeof(T) * 4);
    __qdv_assert(r < half, "the root fits half the width");
    // r^2 + 2r stays below 2^width, so this difference does not wrap: r^2 <= n < (r+1)^2
    __qdv_assert(T(n - T(r * r)) <= T(2 * r), "n lies between the square of the root and the next square");
}
CONTRACT(sqrt_16) { c_sqrt<uint16_t>(); }
CONTRACT(sqrt_32) { c_sqrt<uint32_t>(); }
CONTRACT(sqrt_64) { c_sqrt<uint64_t>(); }

template <typename T>
void c_powers2()
{
    const int n = qdv_any<int>("n");
    __qdv_assume(n > 0);
    const int l = arith::log2<T>(n);
    __qdv_assert(l >= 0 && l <= 30, "range of the logarithm");
    __qdv_assert((n >> l) == 1, "2^log2(n) <= n < 2^(log2(n)+1)");
    const bool p = arith::is_power_of_2<T>(n);
    __qdv_assert(p == (n == (1 << l)), "power of two");
    if (n <= (1 << 30)) {
        const T c = arith::ceil2<T>(n);
        __qdv_assert(c == (p ? T(n) : T(T(2) << l)), "next power of two");
    }
}
CONTRACT(powers2_32) { c_powers2<uint32_t>(); }
CONTRACT(powers2_64) { c_powers2<uint64_t>(); }
CONTRACT(powers2_128) { c_powers2<__uint128_t>(); }
template <typename T>
void c_exp2()
{
    const int b = qdv_any<int>("b");
    __qdv_assume(b >= 0 && b <= 30);
    __qdv_assert(arith::exp2<T>(b) == (1 << b), "2^b");
    const int n = qdv_any<int>("n");
    __qdv_assume(n <= 0);
    __qdv_assert(!arith::is_power_of_2<T>(n), "no power of two below one");
}
CONTRACT(exp2_32) { c_exp2<uint32_t>(); }
CONTRACT(exp2_64) { c_exp2<uint64_t>(); }
CONTRACT(log2_zero)
{
    bool thrown = false;
    try {
        arith::log2<uint32_t>(0);
    } catch (const DomainError&) {
        thrown = true;
    }
    __qdv_assert(thrown, "log2(0) is refused");
}

#define SIZES(N, T) \
    CONTRACT(exp_##N) \
    { \
        const T b = qdv_any<T>("b"), e = qdv_any<T>("e"); \
        __qdv_assert(arith::exp<T>(b, e) == qdv_wpow_##N(b, e), "b to the e"); \
    } \
    CONTRACT(exp_mod_##N) \
    { \
        const T b = qdv_any<T>("b"), e = qdv_any<T>("e"), m = qdv_any<T>("m"); \
        __qdv_assume(m >= 2); \
        const T r = arith::exp_mod<T>(b, e, m); \
        __qdv_assert(r == qdv_pow_##N(T(b % m), e, m), "b to the e modulo m"); \
        __qdv_assert(r < m, "below the modulus"); \
    } \
    CONTRACT(exp_mod_one_##N) \
    { \
        __qdv_assert(arith::exp_mod<T>(qdv_any<T>("b"), qdv_any<T>("e"), T(1)) == 0, "everything is 0 modulo 1"); \
    } \
    CONTRACT(gcd_##N) \
    { \
        const T a = qdv_any<T>("a"), b = qdv_any<T>("b"); \
        __qdv_assert(arith::gcd<T>(a, b) == qdv_gcd_##N(a, b), "greatest common divisor"); \
    }
SIZES(16, uint16_t)
SIZES(32, uint32_t)
SIZES(64, uint64_t)

// in the arithmetic of the signed type of double size (exact while nothing overflows)
template <typename T, typename U>
void c_egcd(bool bezout, bool quotients)
{
    typedef SignedDoubleSizeVal<T> S;
    const S a = S(qdv_any<U>("a")), b = S(qdv_any<U>("b"));
    S bz[2] = {77, 77}, q[2] = {77, 77};
    const S g = arith::extended_gcd<T>(a, b, bezout ? bz : nullptr, quotients ? q : nullptr);
    if (bezout)
        __qdv_assert(U(U(bz[0]) * U(a) + U(bz[1]) * U(b)) == U(g), "Bezout identity");
    else
        __qdv_assert(bz[0] == 77 && bz[1] == 77, "coefficients untouched");
    if (quotients) {
        const U pa = U(g) * U(q[0]), pb = U(g) * U(q[1]);
        __qdv_assert((pa == U(a) && pb == U(0) - U(b)) || (pa == U(0) - U(a) && pb == U(b)), "quotients by the gcd, up to sign");
    } else {
        __qdv_assert(q[0] == 77 && q[1] == 77, "quotients untouched");
    }
}
#define EGCD(N, T, U) \
    CONTRACT(egcd_##N) { c_egcd<T, U>(true, true); } \
    CONTRACT(egcd_bezout_##N) { c_egcd<T, U>(true, false); } \
    CONTRACT(egcd_quotients_##N) { c_egcd<T, U>(false, true); } \
    CONTRACT(egcd_only_##N) { c_egcd<T, U>(false, false); }
EGCD(16, uint16_t, uint32_t)
EGCD(32, uint32_t, uint64_t)
EGCD(64, uint64_t, unsigned __int128)

#define JACOBI(N, D, T, U) \
    CONTRACT(jacobi_##N) \
    { \
        typedef SignedDoubleSizeVal<T> S; \
        const U n = qdv_any<U>("n"), m = qdv_any<U>("m"); \
        __qdv_assume((m & 1) && S(m) > 0); \
        __qdv_assert(arith::jacobi<T>(S(n), S(m)) == qdv_jacobi_##D(n, m), "Jacobi symbol"); \
    } \
    CONTRACT(jacobi_refused_##N) \
    { \
        typedef SignedDoubleSizeVal<T> S; \
        const U n = qdv_any<U>("n"), m = qdv_any<U>("m"); \
        __qdv_assume(!(m & 1) || S(m) < 0); \
        bool thrown = false; \
        try { \
            arith::jacobi<T>(S(n), S(m)); \
        } catch (const DomainError&) { \
            thrown = true; \
        } \
        __qdv_assert(thrown, "even and negative moduli are refused"); \
    }
JACOBI(16, 32, uint16_t, uint32_t)
JACOBI(32, 64, uint32_t, uint64_t)

// primality: `root` is the integer square root (proved above); d is any candidate divisor
extern "C" uint32_t spec_sqrt_32(uint32_t n)
{
    const uint32_t r = qdv_any<uint32_t>("root");
    __qdv_assume(r < (1u << 16) && r * r <= n && n - r * r <= 2 * r);
    return r;
}
extern "C" uint64_t spec_sqrt_64(uint64_t n)
{
    const uint64_t r = qdv_any<uint64_t>("root");
    __qdv_assume(r < (1ull << 32) && r * r <= n && n - r * r <= 2 * r);
    return r;
}
template <typename T>
void c_prime(T (*root)(T))
{
    const T n = qdv_any<T>("n"), d = qdv_any<T>("d");
    const bool p = arith::is_prime<T>(n);
    if (n < 2)
        __qdv_assert(!p, "0 and 1 are not prime");
    else if (p && d >= 2 && d <= root(n))
        __qdv_assert(n % d != 0, "a prime has no divisor up to its root");
}
CONTRACT(prime_32) { c_prime<uint32_t>(spec_sqrt_32); }
CONTRACT(prime_64) { c_prime<uint64_t>(spec_sqrt_64); }
