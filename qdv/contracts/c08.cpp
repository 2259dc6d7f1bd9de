// Bulk buffer operations equal the scalar operation at every index, for every length.
#include "quadiron.h"
#include "gf_prime.h"
#include "qdv.h"
using namespace quadiron;
#include "lanes.h"

#ifdef QUADIRON_USE_SIMD
template <typename T>
bool plain(T card)
{
    return sizeof(T) == 8 || card != (sizeof(T) == 2 ? 257 : 65537);
}
#else
template <typename T>
bool plain(T)
{
    return true;
}
#endif

// the modulus: any, or the Fermat prime the registers are used for
template <typename T>
T modulus(unsigned fermat)
{
    if (fermat)
        return T(fermat);
    T card = qdv_any<T>("card");
    __qdv_assume(card >= 2 && plain(card));
    return card;
}

// two buffers, longer than what is worked on, and an arbitrary index of either part
template <typename T>
struct Two {
    T card;
    gf::Prime<T> gf;
    size_t m, n, g;
    T *x, *y, *ox, *oy;
    explicit Two(unsigned fermat) : card(modulus<T>(fermat)), gf(card)
    {
        m = qdv_any<uint64_t>("m");
        n = qdv_any<uint64_t>("n");
        g = 0;
        __qdv_assume(m < (1ull << 40) && n <= m);
        x = qdv_array<T>(m, "x");
        y = qdv_array<T>(m, "y");
        __qdv_bound(x, card);
        __qdv_bound(y, card);
        ox = qdv_clone(x);
        oy = qdv_clone(y);
    }
};
// an arbitrary index, told by its position in the part a loop iteration works on
#ifdef QUADIRON_USE_SIMD
static const unsigned PERIOD = sizeof(simd::VecType);
#else
static const unsigned PERIOD = 1;
#endif
template <typename T, typename F>
void at_every_index(Two<T>& c, F f, unsigned unroll = 1)
{
    const unsigned p = c.card == (sizeof(T) == 2 ? 257 : 65537) && PERIOD > 1 ? PERIOD / sizeof(T) * unroll : 1;
    size_t j = qdv_any<uint64_t>("j");
    __qdv_assume(j < (1ull << 40));
    for (unsigned k = 0; k < p; ++k) {
        c.g = j * p + k;
        if (c.g < c.m)
            f();
    }
}
template <typename T>
T smul(T a, T b, T card)
{
    return T(DoubleSizeVal<T>(a) * b % card);
}
template <typename T>
T sadd(T a, T b, T card)
{
    return a >= T(card - b) ? T(a - T(card - b)) : T(a + b);
}
template <typename T>
T ssub(T a, T b, T card)
{
    return a >= b ? T(a - b) : T(a + T(card - b));
}
template <typename T>
T sneg(T a, T card)
{
    return a ? T(card - a) : 0;
}

// the coefficient: card-1 has a loop of its own
template <typename T>
T coefficient(T card, bool last)
{
    if (last)
        return card - 1;
    T a = qdv_any<T>("a");
    __qdv_assume(a < card - 1);
    return a;
}
template <typename T>
void c_mul_coef(unsigned fermat, bool last)
{
    Two<T> c(fermat);
    T a = coefficient(c.card, last);
    c.gf.mul_coef_to_buf(a, c.x, c.y, c.n);
    at_every_index(
        c,
        [&]() {
            __qdv_assert(c.y[c.g] == (c.g < c.n ? smul<T>(a, c.ox[c.g], c.card) : c.oy[c.g]), "mul_coef_to_buf");
            __qdv_assert(c.x[c.g] == c.ox[c.g], "mul_coef_to_buf leaves its source");
        },
        last ? 1 : 4);
}
template <typename T>
void c_mul_coef_in_place(unsigned fermat, bool last, bool large = true)
{
    Two<T> c(fermat);
    T a = coefficient(c.card, last);
    // two cases: at least one round of the unrolled loop, or none
    if (fermat)
        __qdv_assume((c.n >= 4 * PERIOD / sizeof(T)) == large);
    c.gf.mul_coef_to_buf(a, c.x, c.x, c.n);
    at_every_index(
        c,
        [&]() {
            __qdv_assert(c.x[c.g] == (c.g < c.n ? smul<T>(a, c.ox[c.g], c.card) : c.ox[c.g]), "mul_coef_to_buf in place");
        },
        last ? 1 : 4);
}
template <typename T>
void c_add(unsigned fermat)
{
    Two<T> c(fermat);
    c.gf.add_two_bufs(c.x, c.y, c.n);
    at_every_index(c, [&]() {
        __qdv_assert(c.y[c.g] == (c.g < c.n ? sadd<T>(c.ox[c.g], c.oy[c.g], c.card) : c.oy[c.g]), "add_two_bufs");
        __qdv_assert(c.x[c.g] == c.ox[c.g], "add_two_bufs leaves its source");
    });
}
template <typename T>
void c_sub(unsigned fermat)
{
    Two<T> c(fermat);
    T* z = qdv_array<T>(c.m, "z");
    T* oz = qdv_clone(z);
    c.gf.sub_two_bufs(c.x, c.y, z, c.n);
    at_every_index(c, [&]() {
        __qdv_assert(z[c.g] == (c.g < c.n ? ssub<T>(c.ox[c.g], c.oy[c.g], c.card) : oz[c.g]), "sub_two_bufs");
        __qdv_assert(c.x[c.g] == c.ox[c.g] && c.y[c.g] == c.oy[c.g], "sub_two_bufs leaves its sources");
    });
}
template <typename T>
void c_sub_in_place(unsigned fermat)
{
    Two<T> c(fermat);
    if (qdv_any<bool>("left")) {
        c.gf.sub_two_bufs(c.x, c.y, c.x, c.n);
        at_every_index(c, [&]() {
            __qdv_assert(c.x[c.g] == (c.g < c.n ? ssub<T>(c.ox[c.g], c.oy[c.g], c.card) : c.ox[c.g]), "sub_two_bufs into its left operand");
            __qdv_assert(c.y[c.g] == c.oy[c.g], "sub_two_bufs leaves its right operand");
        });
    } else {
        c.gf.sub_two_bufs(c.x, c.y, c.y, c.n);
        at_every_index(c, [&]() {
            __qdv_assert(c.y[c.g] == (c.g < c.n ? ssub<T>(c.ox[c.g], c.oy[c.g], c.card) : c.oy[c.g]), "sub_two_bufs into its right operand");
            __qdv_assert(c.x[c.g] == c.ox[c.g], "sub_two_bufs leaves its left operand");
        });
    }
}
template <typename T>
void c_neg(unsigned fermat)
{
    Two<T> c(fermat);
    c.gf.neg(c.n, c.x);
    at_every_index(c, [&]() {
        __qdv_assert(c.x[c.g] == (c.g < c.n ? sneg<T>(c.ox[c.g], c.card) : c.ox[c.g]), "neg");
    });
}
template <typename T>
void c_hadamard(unsigned fermat)
{
    Two<T> c(fermat);
    __qdv_assume(c.n < (1u << 31));
    c.gf.hadamard_mul(c.n, c.x, c.y);
    at_every_index(c, [&]() {
        __qdv_assert(c.x[c.g] == (c.g < c.n ? smul<T>(c.ox[c.g], c.oy[c.g], c.card) : c.ox[c.g]), "hadamard_mul");
        __qdv_assert(c.y[c.g] == c.oy[c.g], "hadamard_mul leaves its second operand");
    });
}
#define ALL(f)                                        \
    CONTRACT(f##_16) { c_##f<uint16_t>(0); }          \
    CONTRACT(f##_32) { c_##f<uint32_t>(0); }          \
    CONTRACT(f##_64) { c_##f<uint64_t>(0); }          \
    CONTRACT(f##_f257) { c_##f<uint16_t>(257); }      \
    CONTRACT(f##_f65537) { c_##f<uint32_t>(65537); }
#define ALL2(f)                                              \
    CONTRACT(f##_16) { c_##f<uint16_t>(0, false); }          \
    CONTRACT(f##_32) { c_##f<uint32_t>(0, false); }          \
    CONTRACT(f##_64) { c_##f<uint64_t>(0, false); }          \
    CONTRACT(f##_f257) { c_##f<uint16_t>(257, false); }      \
    CONTRACT(f##_f65537) { c_##f<uint32_t>(65537, false); }  \
    CONTRACT(f##_last_16) { c_##f<uint16_t>(0, true); }      \
    CONTRACT(f##_last_32) { c_##f<uint32_t>(0, true); }      \
    CONTRACT(f##_last_64) { c_##f<uint64_t>(0, true); }      \
    CONTRACT(f##_last_f257) { c_##f<uint16_t>(257, true); }  \
    CONTRACT(f##_last_f65537) { c_##f<uint32_t>(65537, true); }
ALL2(mul_coef)
ALL2(mul_coef_in_place)
CONTRACT(mul_coef_in_place_f257_small) { c_mul_coef_in_place<uint16_t>(257, false, false); }
CONTRACT(mul_coef_in_place_f65537_small) { c_mul_coef_in_place<uint32_t>(65537, false, false); }
CONTRACT(mul_coef_in_place_last_f257_small) { c_mul_coef_in_place<uint16_t>(257, true, false); }
CONTRACT(mul_coef_in_place_last_f65537_small) { c_mul_coef_in_place<uint32_t>(65537, true, false); }
ALL(add)
ALL(sub)
ALL(sub_in_place)
ALL(neg)
ALL(hadamard)

// ---- sets of buffers: any number of buffers of any length
#include "bufs.h"
template <typename T>
struct Sets {
    T card;
    gf::Prime<T> gf;
    size_t n, size, i, g;
    explicit Sets(unsigned fermat) : card(modulus<T>(fermat)), gf(card)
    {
        n = qdv_any<uint64_t>("n");
        size = qdv_any<uint64_t>("size");
        i = qdv_any<uint64_t>("i");
        g = qdv_any<uint64_t>("g");
        __qdv_assume(n < (1u << 31) && size < (1ull << 40) && i < n && g < size);
    }
};
template <typename T>
void c_add_vecp(unsigned fermat)
{
    Sets<T> s(fermat);
    AnyBuffers<T> x(s.n, s.size, s.size, "x", s.card), y(s.n, s.size, s.size, "y", s.card);
    s.gf.add_vecp_to_vecp(*x, *y);
    __qdv_assert(y.p[s.i][s.g] == sadd<T>(x.old[s.i][s.g], y.old[s.i][s.g], s.card), "add_vecp_to_vecp");
    __qdv_assert(x.p[s.i][s.g] == x.old[s.i][s.g], "add_vecp_to_vecp leaves its source");
}
template <typename T>
void c_sub_vecp(unsigned fermat)
{
    Sets<T> s(fermat);
    AnyBuffers<T> x(s.n, s.size, s.size, "x", s.card), y(s.n, s.size, s.size, "y", s.card), z(s.n, s.size, s.size, "z");
    s.gf.sub_vecp_to_vecp(*x, *y, *z);
    __qdv_assert(z.p[s.i][s.g] == ssub<T>(x.old[s.i][s.g], y.old[s.i][s.g], s.card), "sub_vecp_to_vecp");
    __qdv_assert(x.p[s.i][s.g] == x.old[s.i][s.g] && y.p[s.i][s.g] == y.old[s.i][s.g], "sub_vecp_to_vecp leaves its sources");
}
template <typename T>
void c_neg_vecp(unsigned fermat)
{
    Sets<T> s(fermat);
    AnyBuffers<T> x(s.n, s.size, s.size, "x", s.card);
    s.gf.neg(*x);
    __qdv_assert(x.p[s.i][s.g] == sneg<T>(x.old[s.i][s.g], s.card), "neg of buffers");
}
template <typename T>
void c_mul_vecp(unsigned fermat)
{
    Sets<T> s(fermat);
    AnyBuffers<T> x(s.n, s.size, s.size, "x", s.card), y(s.n, s.size, s.size, "y");
    AnyVector<T> u(s.gf, s.n, "u", s.card);
    s.gf.mul_vec_to_vecp(*u, *x, *y);
    __qdv_lemma_unit(u.p[s.i], x.old[s.i][s.g], s.card);
    __qdv_assert(y.p[s.i][s.g] == smul<T>(u.p[s.i], x.old[s.i][s.g], s.card), "mul_vec_to_vecp");
    __qdv_assert(x.p[s.i][s.g] == x.old[s.i][s.g] && u.p[s.i] == u.old[s.i], "mul_vec_to_vecp leaves its sources");
}
template <typename T>
void c_mul_vecp_in_place(unsigned fermat)
{
    Sets<T> s(fermat);
    AnyBuffers<T> x(s.n, s.size, s.size, "x", s.card);
    AnyVector<T> u(s.gf, s.n, "u", s.card);
    s.gf.mul_vec_to_vecp(*u, *x, *x);
    __qdv_lemma_unit(u.p[s.i], x.old[s.i][s.g], s.card);
    __qdv_assert(x.p[s.i][s.g] == smul<T>(u.p[s.i], x.old[s.i][s.g], s.card), "mul_vec_to_vecp in place");
}
ALL(add_vecp)
ALL(sub_vecp)
ALL(neg_vecp)
ALL(mul_vecp)
ALL(mul_vecp_in_place)

// What the contracts above prove of the operations on one buffer, as loops; the set
// operations are checked against these instead of the bodies (vectorized builds).
#define SPECS(T, bits)                                                                                          \
    extern "C" void spec_neg_##bits(const gf::RingModN<T>* r, size_t n, T* x)                                   \
    {                                                                                                           \
        for (size_t i = 0; i < n; ++i)                                                                          \
            x[i] = sneg<T>(x[i], r->_card);                                                                     \
    }                                                                                                           \
    extern "C" void spec_mul_coef_##bits(const gf::RingModN<T>* r, T a, T* src, T* dest, size_t n)              \
    {                                                                                                           \
        for (size_t i = 0; i < n; ++i)                                                                          \
            dest[i] = smul<T>(a, src[i], r->_card);                                                             \
    }                                                                                                           \
    extern "C" void spec_add_##bits(const gf::RingModN<T>* r, T* src, T* dest, size_t n)                        \
    {                                                                                                           \
        for (size_t i = 0; i < n; ++i)                                                                          \
            dest[i] = sadd<T>(src[i], dest[i], r->_card);                                                       \
    }                                                                                                           \
    extern "C" void spec_sub_##bits(const gf::RingModN<T>* r, T* a, T* b, T* res, size_t n)                     \
    {                                                                                                           \
        for (size_t i = 0; i < n; ++i)                                                                          \
            res[i] = ssub<T>(a[i], b[i], r->_card);                                                             \
    }
SPECS(uint16_t, 16)
SPECS(uint32_t, 32)
