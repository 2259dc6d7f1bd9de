// Orders, roots of unity and code lengths
#include "quadiron.h"
#include "gf_prime.h"
#include "property.h"
#include "qdv.h"
using namespace quadiron;

// exponentiation: any function of its operands (contract: C07, C09)
#define UF(T, s)                                                                                                                      \
    extern "C" T spec_exp_##s(const void*, T a, T e) { return T(__qdv_uf("exp" #s, uint64_t(a), uint64_t(e))); }                      \
    extern "C" T spec_gcd_##s(T a, T b) { return T(__qdv_uf("gcd" #s, uint64_t(a), uint64_t(b))); }
UF(uint16_t, 16) UF(uint32_t, 32) UF(uint64_t, 64)
// ... or the powers of an element of a given order: 1 exactly for the multiples of the order
static uint64_t element, order_of;
#define PW(T, s) extern "C" T spec_powers_##s(const void*, T a, T e) { if (!element) return 2; /* (while the field is set up) */ __qdv_assert(a == element, "powers of the element"); return e % order_of == 0 ? 1 : 2; }
PW(uint32_t, 32) PW(uint64_t, 64)
#define EACH(name)                                                                                                     \
    CONTRACT(name##_16) { c_##name<uint16_t>(); }                                                                      \
    CONTRACT(name##_32) { c_##name<uint32_t>(); }                                                                      \
    CONTRACT(name##_64) { c_##name<uint64_t>(); }

template <typename T>
struct Ring {
    T card;
    gf::Prime<T> gf;
    Ring() : card(any()), gf(card) {}
    static T any()
    {
        T card = qdv_any<T>("card");
        __qdv_assume(card >= 3);
        return card;
    }
};
template <typename T> T EXP(T a, T e);
template <> uint16_t EXP(uint16_t a, uint16_t e) { return spec_exp_16(nullptr, a, e); }
template <> uint32_t EXP(uint32_t a, uint32_t e) { return spec_exp_32(nullptr, a, e); }
template <> uint64_t EXP(uint64_t a, uint64_t e) { return spec_exp_64(nullptr, a, e); }
template <typename T> T GCD(T a, T b);
template <> uint16_t GCD(uint16_t a, uint16_t b) { return spec_gcd_16(a, b); }
template <> uint32_t GCD(uint32_t a, uint32_t b) { return spec_gcd_32(a, b); }
template <> uint64_t GCD(uint64_t a, uint64_t b) { return spec_gcd_64(a, b); }

// the n-th root is the power (card-1)/gcd(n, card-1) of the generator
template <typename T>
void c_nth_root()
{
    Ring<T> r;
    r.gf.root = qdv_any<T>("root");
    const T n = qdv_any<T>("n"), h = r.card - 1, d = GCD<T>(n, h);
    __qdv_assume(n > 0 && d > 0);
    __qdv_assert(r.gf.get_nth_root(n) == EXP<T>(r.gf.root, h / d), "power of the generator");
    __qdv_assert(r.gf.get_root() == r.gf.root, "the generator");
}
EACH(nth_root)
// the generator is the first element of which no power card-1 over a prime is 1
template <typename T>
void generator(unsigned k)
{
    Ring<T> r;
    T d[4];
    std::vector<T>& v = r.gf.proper_divisors;
    v.clear();
    for (unsigned i = 0; i < k; i++) {
        d[i] = qdv_any<T>("divisor");
        v.push_back(d[i]);
    }
    r.gf.root = 0;
    // there is a generator
    const T w = qdv_any<T>("w");
    __qdv_assume(w >= 2 && w < r.card);
    for (unsigned i = 0; i < k; i++)
        __qdv_assume(EXP<T>(w, d[i]) != 1);
    r.gf.find_primitive_root();
    const T g = r.gf.root, x = qdv_any<T>("x");
    __qdv_assert(g >= 2 && g < r.card, "an element");
    __qdv_assume(x >= 2 && x < g);
    bool some = false;
    for (unsigned i = 0; i < k; i++) {
        __qdv_assert(EXP<T>(g, d[i]) != 1, "no power over a prime is 1");
        some |= EXP<T>(x, d[i]) == 1;
    }
    __qdv_assert(some, "the first one");
}
template <typename T>
void is_generator(unsigned k)
{
    Ring<T> r;
    T d[4];
    std::vector<T>& v = r.gf.proper_divisors;
    v.clear();
    const T x = qdv_any<T>("x");
    bool some = false;
    for (unsigned i = 0; i < k; i++) {
        d[i] = qdv_any<T>("divisor");
        v.push_back(d[i]);
        some |= EXP<T>(x, d[i]) == 1;
    }
    __qdv_assert(r.gf.is_primitive_root(x) == !(some || (x == 1 && r.card != 2)), "an element is a generator exactly when no power over a prime is 1");
}
#define K(n)                                                                                                           \
    CONTRACT(generator_16_##n) { generator<uint16_t>(n); }                                                             \
    CONTRACT(generator_32_##n) { generator<uint32_t>(n); }                                                             \
    CONTRACT(is_generator_32_##n) { is_generator<uint32_t>(n); }                                                       \
    CONTRACT(generator_64_##n) { generator<uint64_t>(n); }
K(1) K(2) K(3) K(4)
// orders: elements of any order of the multiplicative group
template <typename F, typename T>
void order(F&& f, uint64_t h)
{
    const T x = qdv_any<T>("x");
    __qdv_assume(x >= 2 && x <= h);
    element = x;
    for (unsigned o = 2; o <= h; o = o < 65536 || o == h ? o + 1 : h) {
        if (h % o)
            continue;
        order_of = o;
        __qdv_assert(f.get_order(x) == o, "the order of the element");
        __qdv_assert(f.check_primitive_root(x) == (o == h), "a generator is an element of order card-1");
    }
    __qdv_assert(f.get_order(1) == 1, "the order of 1");
}
template <typename T>
struct Plain : gf::Prime<T> {
    Plain(T p) : gf::Prime<T>(p) { this->compute_factors_of_order(); }
};
// fields of 2^n elements
#define B(n)                                                                                                           \
    CONTRACT(order_bin_##n)                                                                                            \
    {                                                                                                                  \
        gf::BinExtension<uint32_t> f = gf::create<gf::BinExtension<uint32_t>>(uint32_t(n));                            \
        order<gf::BinExtension<uint32_t>&, uint32_t>(f, (1ull << n) - 1);                                              \
    }
B(2) B(3) B(4) B(8)
#define P(p)                                                                                                           \
    CONTRACT(order_32_##p) { order<Plain<uint32_t>, uint32_t>(Plain<uint32_t>(p), p - 1); }
P(5) P(13) P(31) P(97) P(257) P(7681) P(65537)
CONTRACT(order_64_65537) { order<Plain<uint64_t>, uint64_t>(Plain<uint64_t>(65537), 65536); }
// code lengths
template <typename T>
void high(std::vector<T> factors)
{
    uint64_t prod = 1;
    for (T p : factors)
        prod *= p;
    const T n = qdv_any<T>("n");
    __qdv_assume(n <= prod);
    const T len = arith::get_code_len_high_compo<T>(factors, n);
    __qdv_assert(len >= n, "not below the request");
    bool ok = false;
    // divisors of the product
    for (uint64_t d = 1; d <= 65536 && d <= prod; d++)
        if (prod % d == 0) {
            ok |= len == d;
            if (prod / d > 65536)
                ok |= len == prod / d;
        }
    __qdv_assert(ok, "a divisor of the order");
}
#define H(name, T, ...) CONTRACT(high_##name) { high<T>(std::vector<T>{__VA_ARGS__}); }
H(256, uint32_t, 2, 2, 2, 2, 2, 2, 2, 2)
H(65536, uint32_t, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2)
H(255, uint32_t, 3, 5, 17)
H(65535, uint32_t, 3, 5, 17, 257)
H(12, uint32_t, 2, 2, 3)
H(7680, uint32_t, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 5)
H(65536_64, uint64_t, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2)
H(p32, uint64_t, 3, 5, 17, 257, 65537)
