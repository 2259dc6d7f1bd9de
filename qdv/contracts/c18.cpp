// Bytes to symbols and back, for any number of buffers of any length.
#include "quadiron.h"
#include "vec_cast.h"
#include "qdv.h"
using namespace quadiron;
#include "bufs.h"
typedef unsigned __int128 u128;

// n buffers, each of `elems` elements: pointers and contents arbitrary
template <typename T>
struct Set {
    T** p;
    T** old;
    Raw<std::vector<T*>> v;
    Set(size_t n, size_t elems, const char* name)
    {
        p = reinterpret_cast<T**>(__qdv_bufs(n, elems * sizeof(T), sizeof(T), 32, name));
        old = reinterpret_cast<T**>(__qdv_clone(p));
        qdv_std_vector(*v, p, n);
    }
};
struct Shape {
    size_t n, size, i, g;
    Shape()
    {
        n = qdv_any<uint64_t>("n");
        size = qdv_any<uint64_t>("size");
        i = qdv_any<uint64_t>("i");
        g = qdv_any<uint64_t>("g");
        __qdv_assume(n < (1ull << 30) && size < (1ull << 30) && i < n && g < size);
    }
};
template <typename Ts, typename Td, unsigned W>
void c_pack()
{
    Shape s;
    Set<Ts> src(s.n, s.size * (W / sizeof(Ts)), "src");
    Set<Td> dst(s.n, s.size, "dst");
    vec::pack<Ts, Td>(*src.v, *dst.v, int(s.n), s.size, W);
    const Td r = dst.p[s.i][s.g];
    const uint8_t* bytes = reinterpret_cast<const uint8_t*>(src.old[s.i]);
    for (unsigned b = 0; b < sizeof(Td); b++)
        __qdv_assert(uint8_t(r >> (8 * b)) == (b < W ? bytes[s.g * W + b] : 0), "each symbol is the little-endian value of its word");
    const size_t e = s.g * (W / sizeof(Ts));
    __qdv_assert(src.p[s.i][e] == src.old[s.i][e], "pack leaves its source");
}
template <typename Ts, typename Td, unsigned W>
void c_unpack()
{
    Shape s;
    Set<Ts> src(s.n, s.size, "src");
    Set<Td> dst(s.n, s.size * (W / sizeof(Td)), "dst");
    vec::unpack<Ts, Td>(*src.v, *dst.v, int(s.n), s.size, W);
    const Ts x = src.old[s.i][s.g];
    const uint8_t* bytes = reinterpret_cast<const uint8_t*>(dst.p[s.i]);
    for (unsigned b = 0; b < W; b++)
        __qdv_assert(bytes[s.g * W + b] == uint8_t(x >> (8 * b)), "each word is the low bytes of its symbol");
    __qdv_assert(src.p[s.i][s.g] == x, "unpack leaves its source");
}
template <typename T, unsigned W>
void c_round()
{
    Shape s;
    Set<uint8_t> src(s.n, s.size * W, "src"), back(s.n, s.size * W, "back");
    Set<T> mid(s.n, s.size, "mid");
    vec::pack<uint8_t, T>(*src.v, *mid.v, int(s.n), s.size, W);
    vec::unpack<T, uint8_t>(*mid.v, *back.v, int(s.n), s.size, W);
    for (unsigned b = 0; b < W; b++)
        __qdv_assert(back.p[s.i][s.g * W + b] == src.old[s.i][s.g * W + b], "unpack undoes pack");
}
#define BOTH(t, T, w)                                                                                                  \
    CONTRACT(pack_8_##t##_##w) { c_pack<uint8_t, T, w>(); }                                                            \
    CONTRACT(unpack_##t##_8_##w) { c_unpack<T, uint8_t, w>(); }                                                        \
    CONTRACT(round_##t##_##w) { c_round<T, w>(); }
BOTH(8, uint8_t, 1)
BOTH(16, uint16_t, 1)
BOTH(16, uint16_t, 2)
BOTH(32, uint32_t, 1)
BOTH(32, uint32_t, 2)
BOTH(32, uint32_t, 4)
BOTH(64, uint64_t, 1)
BOTH(64, uint64_t, 2)
BOTH(64, uint64_t, 4)
BOTH(64, uint64_t, 8)
BOTH(128, u128, 1)
BOTH(128, u128, 2)
BOTH(128, u128, 4)
BOTH(128, u128, 8)
BOTH(128, u128, 16)
CONTRACT(pack_16_32_2) { c_pack<uint16_t, uint32_t, 2>(); }
CONTRACT(unpack_32_16_2) { c_unpack<uint32_t, uint16_t, 2>(); }
CONTRACT(pack_32_64_4) { c_pack<uint32_t, uint64_t, 4>(); }
CONTRACT(unpack_64_32_4) { c_unpack<uint64_t, uint32_t, 4>(); }

// the pointers of a buffer set, seen as another type
template <typename Ts, typename Td>
void c_cast()
{
    Shape s;
    AnyBuffers<Ts> b(s.n, s.size, s.size, "b");
    std::vector<Td*>* v = vec::cast_mem_of_vecp<Ts, Td>(&*b);
    __qdv_assert(v->size() == s.n, "as many pointers as buffers");
    Td* q = (*v)[s.i];
    __qdv_assert(__qdv_same_object(q, b.p[s.i]) && __qdv_offset(q) == 0, "the same memory");
    delete v;
}
CONTRACT(cast_32_8) { c_cast<uint32_t, uint8_t>(); }
CONTRACT(cast_8_64) { c_cast<uint8_t, uint64_t>(); }
