#include "codec.h"

// value at z of the polynomial with coefficients x
template <typename T>
T eval(const gf::Field<T>& gf, const T* x, int k, uint64_t z)
{
    T s = 0;
    for (int i = k - 1; i >= 0; i--)
        s = gf.add(gf.mul(s, T(z)), x[i]);
    return s;
}
// value at z of the polynomial of degree < k with the values y at x[i]
template <typename T>
T interpolate(const gf::Field<T>& gf, const T* y, const uint64_t* x, int k, uint64_t z, uint64_t p)
{
    T s = 0;
    for (int i = 0; i < k; i++) {
        uint64_t c = 1;
        for (int j = 0; j < k; j++)
            if (j != i)
                c = c * ((z + p - x[j]) % p) % p * inverse((x[i] + p - x[j]) % p, p) % p;
        s = gf.add(s, gf.mul(T(c), y[i]));
    }
    return s;
}
template <typename T>
void c_encode(fec::FecType type, unsigned word, unsigned k, unsigned m, uint64_t root)
{
    const uint64_t p = (1ull << (8 * word)) + 1;
    const size_t pkt = any_pkt();
    fec::RsFnt<T> fec(type, word, k, m, pkt);
    const gf::Field<T>& gf = fec.get_gf();
    const int outs = fec.get_n_outputs();
    AnyBuffers<T> x(k, pkt, pkt, "x", T(p)), y(outs, pkt, pkt, "y");
    const size_t g = qdv_any<uint64_t>("g");
    __qdv_assume(g < pkt);
    std::vector<Properties> props(outs);
    fec.encode(*y, props, 0, *x);
    T in[16];
    uint64_t at[16];
    for (unsigned i = 0; i < k; i++) {
        in[i] = x.old[i][g];
        at[i] = power(root, i, p);
        ring_eq(x.p[i][g], x.old[i][g], p, "the data is unchanged");
    }
    for (int j = 0; j < outs; j++)
        if (type == fec::FecType::SYSTEMATIC)
            ring_eq(y.p[j][g], interpolate(gf, in, at, k, power(root, k + j, p), p), p, "parity j is the value at r^(k+j) of the polynomial with the data as values at r^i");
        else
            ring_eq(y.p[j][g], eval(gf, in, k, power(root, j, p)), p, "fragment j is the value at r^j of the data polynomial");
}

// symbol by symbol
template <typename T>
void c_encode_vec(unsigned word, unsigned k, unsigned m, uint64_t root)
{
    const uint64_t p = (1ull << (8 * word)) + 1;
    fec::RsFnt<T> fec(fec::FecType::NON_SYSTEMATIC, word, k, m);
    const gf::Field<T>& gf = fec.get_gf();
    const int outs = fec.get_n_outputs();
    AnyVector<T> x(gf, k, "x", T(p)), y(gf, outs, "y");
    std::vector<Properties> props(outs);
    fec.encode(y.v, props, 0, x.v);
    for (int j = 0; j < outs; j++)
        ring_eq(y.p[j], eval(gf, x.old, k, power(root, j, p)), p, "symbol j is the value at r^j of the data polynomial");
    for (unsigned i = 0; i < k; i++)
        __qdv_assert(x.p[i] == x.old[i], "the data is unchanged");
}
// the special symbols of a packet
struct Ghost {
    Properties* first;
    uint64_t** seen;
};
static Ghost ghost;
extern "C" void spec_props_add(Properties* self, size_t location, uint32_t marker)
{
    ghost.seen[self - ghost.first][location] = marker;
}
static const uint64_t LOCS = 1ull << 39;
template <typename T>
void c_marks(unsigned word, unsigned k, unsigned m, fec::FecType type)
{
    const uint64_t p = (1ull << (8 * word)) + 1;
    const size_t pkt = any_pkt(), offset = qdv_any<uint64_t>("offset"), l = qdv_any<uint64_t>("l");
    __qdv_assume(offset < (1ull << 31) && l < (1ull << 32));
    fec::RsFnt<T> fec(type, word, k, m, pkt);
    const int outs = fec.get_n_outputs();
    AnyBuffers<T> y(outs, pkt, pkt, "y", T(p));
    AnyBuffers<uint64_t> seen(outs, 1ull << 33, 1ull << 33, "seen");
    std::vector<Properties> props(outs);
    ghost.first = props.data();
    ghost.seen = seen.p;
    fec.encode_post_process(*y, props, offset);
    for (int j = 0; j < int(fec.n_outputs); j++) {
        const bool in = l >= offset && l - offset < pkt;
        __qdv_assert(seen.p[j][l] == (in && y.old[j][l - offset] == p - 1 ? OOR_MARK : seen.old[j][l]), "a record is made exactly where the symbol is the special value");
        if (in)
            __qdv_assert(y.p[j][l - offset] == y.old[j][l - offset], "the symbols are unchanged");
    }
}
template <typename T>
void c_marks_vec(unsigned word, unsigned k, unsigned m, fec::FecType type)
{
    const uint64_t p = (1ull << (8 * word)) + 1;
    const size_t offset = qdv_any<uint64_t>("offset"), l = qdv_any<uint64_t>("l");
    __qdv_assume(offset < (1ull << 31) && l < (1ull << 32));
    fec::RsFnt<T> fec(type, word, k, m);
    const int outs = fec.get_n_outputs();
    AnyVector<T> y(fec.get_gf(), outs, "y", T(p));
    AnyBuffers<uint64_t> seen(outs, 1ull << 33, 1ull << 33, "seen");
    std::vector<Properties> props(outs);
    ghost.first = props.data();
    ghost.seen = seen.p;
    fec.encode_post_process(y.v, props, offset);
    for (int j = 0; j < int(fec.n_outputs); j++) {
        const bool special = y.old[j] == p - 1;
        __qdv_assert(seen.p[j][l] == (l == offset && special ? OOR_MARK : seen.old[j][l]), "a record is made exactly where the symbol is the special value");
        __qdv_assert(y.p[j] == (special ? 0 : y.old[j]), "the other symbols are unchanged");
    }
}
// order of the root: the smallest power of two that holds all the fragments
inline uint64_t root(unsigned word, unsigned k, unsigned m)
{
    uint64_t n = 1, p = (1ull << (8 * word)) + 1;
    while (n < k + m)
        n *= 2;
    return power(3, (p - 1) / n, p);
}
#define ENC(T, w, k, m) \
    CONTRACT(encode_##w##_##k##_##m) { c_encode<T>(fec::FecType::NON_SYSTEMATIC, w, k, m, root(w, k, m)); } \
    CONTRACT(encode_vec_##w##_##k##_##m) { c_encode_vec<T>(w, k, m, root(w, k, m)); } \
    CONTRACT(encode_sys_##w##_##k##_##m) { c_encode<T>(fec::FecType::SYSTEMATIC, w, k, m, root(w, k, m)); }
#define MARKS(T, w, k, m) \
    CONTRACT(marks_##w##_##k##_##m) { c_marks<T>(w, k, m, fec::FecType::NON_SYSTEMATIC); } \
    CONTRACT(marks_sys_##w##_##k##_##m) { c_marks<T>(w, k, m, fec::FecType::SYSTEMATIC); } \
    CONTRACT(marks_vec_##w##_##k##_##m) { c_marks_vec<T>(w, k, m, fec::FecType::NON_SYSTEMATIC); }
MARKS(uint16_t, 1, 1, 1)
MARKS(uint32_t, 2, 2, 2)
MARKS(uint32_t, 2, 3, 2)
ENC(uint16_t, 1, 1, 1)
ENC(uint16_t, 1, 2, 1)
ENC(uint16_t, 1, 3, 2)
ENC(uint16_t, 1, 4, 4)
ENC(uint32_t, 2, 1, 2)
ENC(uint32_t, 2, 2, 2)
ENC(uint32_t, 2, 2, 3)
ENC(uint32_t, 2, 3, 1)
ENC(uint32_t, 2, 3, 5)
ENC(uint32_t, 2, 5, 3)
ENC(uint32_t, 2, 7, 1)
ENC(uint32_t, 2, 1, 7)
CONTRACT(encode_2_6_7) { c_encode<uint32_t>(fec::FecType::NON_SYSTEMATIC, 2, 6, 7, root(2, 6, 7)); }
CONTRACT(encode_vec_2_9_7) { c_encode_vec<uint32_t>(2, 9, 7, root(2, 9, 7)); }
CONTRACT(encode_vec_1_11_10) { c_encode_vec<uint16_t>(1, 11, 10, root(1, 11, 10)); }
