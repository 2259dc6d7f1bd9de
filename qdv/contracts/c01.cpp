#include "codec.h"

// encode, keep the fragments of a subset, decode
template <typename T>
void c_code(fec::FecType type, unsigned word, unsigned k, unsigned m, unsigned s)
{
    const uint64_t p = (1ull << (8 * word)) + 1;
    const bool sys = type == fec::FecType::SYSTEMATIC;
    const size_t pkt = any_pkt();
    fec::RsFnt<T> fec(type, word, k, m, pkt);
    const gf::Field<T>& gf = fec.get_gf();
    const unsigned outs = fec.get_n_outputs();
    AnyBuffers<T> x(k, pkt, pkt, "x", T(p)), y(outs, pkt, pkt, "y"), z(k, pkt, pkt, "z");
    const size_t g = qdv_any<uint64_t>("g");
    __qdv_assume(g < pkt);
    std::vector<Properties> props(sys ? m : k + m);
    fec.encode(*y, props, 0, *x);
    // the fragments kept, in ascending order
    const unsigned keep = subset(k + m, k, s);
    if (keep == 0)
        return;
    vec::Vector<T> ids(gf, int(k));
    T* got[16];
    int w = 0;
    for (unsigned i = 0; i < k + m; i++)
        if (keep >> i & 1) {
            ids.set(w, T(i));
            got[w++] = sys ? (i < k ? x.p[i] : y.p[i - k]) : y.p[i];
        }
    std::vector<T*> mem(got, got + k);
    vec::Buffers<T> words(int(k), pkt, mem);
    std::unique_ptr<fec::DecodeContext<T>> context = fec.init_context_dec(ids, props, pkt, &*z);
    fec.decode(*context, *z, props, 0, words);
    for (unsigned i = 0; i < k; i++)
        ring_eq(z.p[i][g], x.old[i][g], p, "decoding gives the data back");
}
// symbol by symbol
template <typename T>
void c_code_vec(unsigned word, unsigned k, unsigned m, unsigned s)
{
    const uint64_t p = (1ull << (8 * word)) + 1;
    fec::RsFnt<T> fec(fec::FecType::NON_SYSTEMATIC, word, k, m);
    const gf::Field<T>& gf = fec.get_gf();
    const unsigned outs = fec.get_n_outputs();
    AnyVector<T> x(gf, k, "x", T(p)), y(gf, outs, "y"), z(gf, k, "z");
    std::vector<Properties> props(k + m);
    fec.encode(y.v, props, 0, x.v);
    const unsigned keep = subset(k + m, k, s);
    if (keep == 0)
        return;
    vec::Vector<T> ids(gf, int(k)), words(gf, int(k));
    int w = 0;
    for (unsigned i = 0; i < k + m; i++)
        if (keep >> i & 1) {
            ids.set(w, T(i));
            words.set(w++, y.p[i]);
        }
    std::unique_ptr<fec::DecodeContext<T>> context = fec.init_context_dec(ids, props, 0, nullptr);
    fec.decode(*context, z.v, props, 0, words);
    for (unsigned i = 0; i < k; i++)
        ring_eq(z.p[i], x.old[i], p, "decoding gives the data back");
}
#define CODE(T, w, k, m, s)                                                                                 \
    CONTRACT(code_##w##_##k##_##m##_##s) { c_code<T>(fec::FecType::NON_SYSTEMATIC, w, k, m, s); }            \
    CONTRACT(code_vec_##w##_##k##_##m##_##s) { c_code_vec<T>(w, k, m, s); }
#define SYS(T, w, k, m, s) CONTRACT(code_sys_##w##_##k##_##m##_##s) { c_code<T>(fec::FecType::SYSTEMATIC, w, k, m, s); }
#define ALL2(M, T, w, k, m) M(T, w, k, m, 0) M(T, w, k, m, 1)
#define ALL3(M, T, w, k, m) ALL2(M, T, w, k, m) M(T, w, k, m, 2)
#define ALL4(M, T, w, k, m) ALL3(M, T, w, k, m) M(T, w, k, m, 3)
#define ALL6(M, T, w, k, m) ALL4(M, T, w, k, m) M(T, w, k, m, 4) M(T, w, k, m, 5)
#define ALL10(M, T, w, k, m) ALL6(M, T, w, k, m) M(T, w, k, m, 6) M(T, w, k, m, 7) M(T, w, k, m, 8) M(T, w, k, m, 9)
// a systematic code whose data is all there has nothing to decode: subset 0 is left out
ALL2(CODE, uint16_t, 1, 1, 1)
SYS(uint16_t, 1, 1, 1, 1)
ALL3(CODE, uint32_t, 2, 2, 1)
SYS(uint32_t, 2, 2, 1, 1) SYS(uint32_t, 2, 2, 1, 2)
ALL6(CODE, uint32_t, 2, 2, 2)
SYS(uint16_t, 1, 2, 2, 1) SYS(uint32_t, 2, 2, 2, 2) SYS(uint16_t, 1, 2, 2, 3) SYS(uint32_t, 2, 2, 2, 4) SYS(uint16_t, 1, 2, 2, 5)
ALL10(CODE, uint16_t, 1, 3, 2)
// special symbols recorded in the fragments are put back, packet after packet
template <typename T>
void c_prepare(fec::FecType type, unsigned word, unsigned k, unsigned m, unsigned keep, int records, int done, int left)
{
    const uint64_t p = (1ull << (8 * word)) + 1;
    const bool sys = type == fec::FecType::SYSTEMATIC;
    const size_t pkt = any_pkt(), offset = qdv_any<uint64_t>("offset"), g = qdv_any<uint64_t>("g");
    __qdv_assume(offset < (1ull << 32) && g < pkt);
    fec::RsFnt<T> fec(type, word, k, m, pkt);
    AnyBuffers<T> w(k, pkt, pkt, "w", T(p - 1)), z(k, pkt, pkt, "z");
    vec::Vector<T> ids(fec.get_gf(), int(k));
    unsigned frag[16], n = 0;
    for (unsigned i = 0; i < k + m; i++)
        if (keep >> i & 1) {
            frag[n] = i;
            ids.set(int(n++), T(i));
        }
    std::vector<Properties> props(sys ? m : k + m);
    // `records` records in one of the kept fragments
    const unsigned at = k - 1, id = sys ? frag[at] - k : frag[at];
    size_t loc[4];
    for (int r = 0; r < records; r++) {
        loc[r] = qdv_any<uint64_t>(r == 0 ? "l0" : r == 1 ? "l1" : "l2");
        __qdv_assume(loc[r] < (1ull << 33) && (r == 0 || loc[r - 1] < loc[r]));
        props[id].add(loc[r], OOR_MARK);
    }
    std::unique_ptr<fec::DecodeContext<T>> context = fec.init_context_dec(ids, props, pkt, &*z);
    // the first ones lie in earlier packets, which have been dealt with, the last ones in later packets
    for (int r = 0; r < records; r++)
        __qdv_assume((loc[r] < offset) == (r < done) && (loc[r] < offset + pkt) == (r < left));
    context->props_indices[id] = size_t(done);
    fec.decode_prepare(*context, props, off_t(offset), *w);
    bool marked = false;
    for (int r = 0; r < records; r++)
        marked = marked || loc[r] == offset + g;
    for (unsigned i = 0; i < k; i++)
        __qdv_assert(w.p[i][g] == (i == at && marked ? p - 1 : w.old[i][g]), "the symbol is the special value exactly where a record says so");
    __qdv_assert(context->props_indices[id] == size_t(left), "the next packet starts after the records of this one");
}
#define PREPARE(T, w, k, m, keep, R, D, L)                                                                                               \
    CONTRACT(prepare_##w##_##R##D##L) { c_prepare<T>(fec::FecType::NON_SYSTEMATIC, w, k, m, keep, R, D, L); }                            \
    CONTRACT(prepare_sys_##w##_##R##D##L) { c_prepare<T>(fec::FecType::SYSTEMATIC, w, k, m, keep, R, D, L); }
PREPARE(uint16_t, 1, 1, 1, 2, 0, 0, 0)
PREPARE(uint16_t, 1, 1, 1, 2, 1, 0, 0)
PREPARE(uint16_t, 1, 1, 1, 2, 1, 0, 1)
PREPARE(uint16_t, 1, 1, 1, 2, 1, 1, 1)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 0, 0)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 0, 1)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 0, 2)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 0, 3)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 1, 1)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 1, 2)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 1, 3)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 2, 2)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 2, 3)
PREPARE(uint32_t, 2, 2, 2, 10, 3, 3, 3)
