// Packed elements of GF(65537): every operation acts on each 32-bit lane alone.
#include "quadiron.h"
#include "gf_nf4.h"
#include "qdv.h"
using namespace quadiron;
typedef unsigned __int128 u128;

template <typename T>
uint32_t lane(T x, int i)
{
    return uint32_t(x >> (32 * i));
}
template <typename T>
bool wide(T x, int n)   // nothing above lane n-1
{
    return 32 * n >= int(8 * sizeof(T)) || (x >> (32 * n % (8 * sizeof(T)))) == 0;
}
template <typename T, int N>
struct Lanes {
    gf::NF4<T> gf;
    T a, b;
    Lanes() : gf(N), a(0), b(0) {}
    T element(const char* name)
    {
        T x = qdv_any<T>(name);
        for (int i = 0; i < N; i++)
            __qdv_assume(lane(x, i) <= 65536);
        __qdv_assume(wide(x, N));
        return x;
    }
    void two()
    {
        a = element("a");
        b = element("b");
    }
    template <typename F>
    void each(T r, F f, const char* what)
    {
        for (int i = 0; i < N; i++)
            __qdv_assert(lane(r, i) == f(lane(a, i), lane(b, i)), what);
        __qdv_assert(wide(r, N), "nothing above the lanes");
    }
};
#define SHAPES(name)                                                                                                   \
    CONTRACT(name##_32x1) { c_##name<uint32_t, 1>(); }                                                                 \
    CONTRACT(name##_64x1) { c_##name<uint64_t, 1>(); }                                                                 \
    CONTRACT(name##_64x2) { c_##name<uint64_t, 2>(); }                                                                 \
    CONTRACT(name##_128x1) { c_##name<u128, 1>(); }                                                                    \
    CONTRACT(name##_128x2) { c_##name<u128, 2>(); }                                                                    \
    CONTRACT(name##_128x4) { c_##name<u128, 4>(); }

inline uint32_t l_mul(uint32_t x, uint32_t y)
{
    __qdv_lemma_unit(x, y, 65537);
    __qdv_lemma_unit(y, x, 65537);
    return uint32_t(uint64_t(x) * y % 65537);
}
template <typename T, int N>
void c_add()
{
    Lanes<T, N> s;
    s.two();
    s.each(s.gf.add(s.a, s.b), [](uint32_t x, uint32_t y) { return x + y >= 65537 ? x + y - 65537 : x + y; }, "add in each lane");
}
SHAPES(add)
template <typename T, int N>
void c_sub()
{
    Lanes<T, N> s;
    s.two();
    s.each(s.gf.sub(s.a, s.b), [](uint32_t x, uint32_t y) { return x >= y ? x - y : 65537 - (y - x); }, "sub in each lane");
    s.each(s.gf.neg(s.a), [](uint32_t x, uint32_t) { return x ? 65537 - x : 0; }, "neg in each lane");
}
SHAPES(sub)
template <typename T, int N>
void c_mul()
{
    Lanes<T, N> s;
    s.two();
    s.each(s.gf.mul(s.a, s.b), l_mul, "mul in each lane");
}
SHAPES(mul)

extern "C" {
uint32_t spec_sub_div(const void*, uint32_t a, uint32_t b) { return uint32_t(__qdv_uf("fdiv", uint64_t(a), uint64_t(b))); }
uint32_t spec_sub_inv(const void*, uint32_t a) { return uint32_t(__qdv_uf("finv", uint64_t(a))); }
uint32_t spec_sub_exp(const void*, uint32_t a, uint32_t b) { return uint32_t(__qdv_uf("fexp", uint64_t(a), uint64_t(b))); }
uint32_t spec_sub_log(const void*, uint32_t a, uint32_t b) { return uint32_t(__qdv_uf("flog", uint64_t(a), uint64_t(b))); }
}
template <typename T, int N>
void c_lanewise()
{
    Lanes<T, N> s;
    s.two();
    s.each(s.gf.div(s.a, s.b), [](uint32_t x, uint32_t y) { return spec_sub_div(nullptr, x, y); }, "div in each lane");
    s.each(s.gf.inv(s.a), [](uint32_t x, uint32_t) { return spec_sub_inv(nullptr, x); }, "inv in each lane");
    s.each(s.gf.exp(s.a, s.b), [](uint32_t x, uint32_t y) { return spec_sub_exp(nullptr, x, y); }, "exp in each lane");
    s.each(s.gf.log(s.a, s.b), [](uint32_t x, uint32_t y) { return spec_sub_log(nullptr, x, y); }, "log in each lane");
}
SHAPES(lanewise)
template <typename T, int N>
void c_constants()
{
    Lanes<T, N> s;
    s.a = s.element("a");
    uint32_t x = qdv_any<uint32_t>("x");
    __qdv_assume(x <= 65536);
    T r = s.gf.replicate(T(x));
    for (int i = 0; i < N; i++) {
        __qdv_assert(lane(r, i) == x, "replicate fills each lane");
        __qdv_assert(lane(s.gf.card(), i) == 65537 && lane(s.gf.card_minus_one(), i) == 65536 && lane(s.gf.get_unit(), i) == 1, "card, card-1 and 1 in each lane");
    }
    __qdv_assert(wide(r, N), "nothing above the lanes");
    __qdv_assert(s.gf.check(s.a), "every packed element is an element");
}
SHAPES(constants)
// n words of 16 bits, and one flag bit each for the value 65536
template <typename T, int N>
void c_pack()
{
    Lanes<T, N> s;
    T w = qdv_any<T>("words");
    uint32_t f = qdv_any<uint32_t>("flags");
    T p = s.gf.pack(w), q = s.gf.pack(w, f);
    for (int i = 0; i < N; i++) {
        uint32_t x = uint16_t(w >> (16 * i));
        __qdv_assert(lane(p, i) == x, "pack widens each word");
        __qdv_assert(lane(q, i) == ((f >> i) & 1 ? 65536 : x), "pack with flags");
    }
#ifdef QUADIRON_USE_SIMD
    const int lanes = sizeof(T) == 16 ? 4 : N;   // a register is packed as a whole
#else
    const int lanes = N;
#endif
    __qdv_assert(wide(p, lanes) && wide(q, lanes), "nothing above the lanes");
}
SHAPES(pack)
template <typename T, int N>
void c_unpack()
{
    Lanes<T, N> s;
    s.a = s.element("a");
    GroupedValues<T> u = s.gf.unpack(s.a), v;
    s.gf.unpack(s.a, v);
    for (int i = 0; i < N; i++) {
        uint32_t x = lane(s.a, i);
        __qdv_assert(uint16_t(u.values >> (16 * i)) == uint16_t(x), "unpack narrows each lane");
        __qdv_assert(((u.flag >> i) & 1) == (x == 65536), "the flag marks 65536");
    }
    __qdv_assert((u.flag >> N) == 0, "no flag above the lanes");
    __qdv_assert(16 * N >= int(8 * sizeof(T)) || (u.values >> (16 * N % (8 * sizeof(T)))) == 0, "nothing above the words");
    __qdv_assert(u.values == v.values && u.flag == v.flag, "both forms of unpack");
    __qdv_assert(s.gf.pack(u.values, u.flag) == s.a, "pack undoes unpack");
}
SHAPES(unpack)
template <typename T, int N>
void c_round()
{
    Lanes<T, N> s;
    T w = qdv_any<T>("words");
    uint32_t f = qdv_any<uint32_t>("flags");
    const T all = 16 * N >= int(8 * sizeof(T)) ? T(~T(0)) : T((T(1) << (16 * N % (8 * sizeof(T)))) - 1);
    __qdv_assume((w & T(~all)) == 0 && (f >> N) == 0);
    for (int i = 0; i < N; i++)   // a flagged word is stored as zero
        __qdv_assume(!((f >> i) & 1) || uint16_t(w >> (16 * i)) == 0);
    GroupedValues<T> u = s.gf.unpack(s.gf.pack(w, f));
    __qdv_assert(u.values == w && u.flag == f, "unpack undoes pack");
}
SHAPES(round)
// every element of arrays of any length
template <typename T, int N>
void c_hadamard()
{
    Lanes<T, N> s;
    const unsigned per = sizeof(T) / 4;
    size_t m = qdv_any<uint64_t>("m"), n = qdv_any<uint64_t>("n"), g = qdv_any<uint64_t>("g");
    __qdv_assume(n <= m && m < (1ull << 30) && g < m);
    uint32_t* x = qdv_array<uint32_t>(m * per, "x");
    uint32_t* y = qdv_array<uint32_t>(m * per, "y");
    __qdv_bound(x, 65537);
    __qdv_bound(y, 65537);
    uint32_t *ox = qdv_clone(x), *oy = qdv_clone(y);
    s.gf.hadamard_mul(int(n), reinterpret_cast<T*>(x), reinterpret_cast<T*>(y));
    for (unsigned i = 0; i < per; i++) {
        size_t k = g * per + i;
        if (g < n && i < unsigned(N))
            __qdv_assert(x[k] == l_mul(ox[k], oy[k]), "hadamard_mul in each lane");
        if (g >= n)
            __qdv_assert(x[k] == ox[k], "hadamard_mul leaves the rest");
        __qdv_assert(y[k] == oy[k], "hadamard_mul leaves its second operand");
    }
}
SHAPES(hadamard)
