#include "codec.h"

static const uint64_t BIN = 1ull << 63;
// encode, keep the fragments of a subset, decode: symbol by symbol
template <typename T>
void c_code(fec::FecCode<T>& fec, uint64_t ring, T card, unsigned s, bool no_context)
{
    const gf::Field<T>& gf = fec.get_gf();
    const unsigned k = fec.n_data, m = fec.n_parities, outs = fec.get_n_outputs();
    const bool sys = fec.type == fec::FecType::SYSTEMATIC;
    AnyVector<T> x(gf, k, "x", card), y(gf, outs, "y"), z(gf, k, "z");
    std::vector<Properties> props(outs);
    fec.encode(y.v, props, 0, x.v);
    const unsigned keep = subset(k + m, k, s);
    if (keep == 0)
        return;
    vec::Vector<T> ids(gf, int(k)), words(gf, int(k));
    int w = 0;
    for (unsigned i = 0; i < k + m; i++)
        if (keep >> i & 1) {
            ids.set(w, T(i));
            if (sys && i < k)
                fec.decode_add_data(w, int(i));
            else
                fec.decode_add_parities(w, int(sys ? i - k : i));
            words.set(w++, sys ? (i < k ? x.p[i] : y.p[i - k]) : y.p[i]);
        }
    fec.decode_build();
    std::unique_ptr<fec::DecodeContext<T>> context = fec.init_context_dec(ids, props, 0, nullptr);
    fec.decode(no_context ? *(fec::DecodeContext<T>*)words.get_mem() : *context, z.v, props, 0, words);
    for (unsigned i = 0; i < k; i++)
        ring_eq(z.p[i], x.old[i], ring, "decoding gives the data back");
}
template <typename T>
void c_matrix(unsigned word, unsigned k, unsigned m, fec::RsMatrixType type, unsigned s)
{
    fec::RsGf2n<T> f(word, k, m, type);
    c_code<T>(f, BIN | 8 * word, 8 * word < 8 * sizeof(T) ? T(T(1) << (8 * word % (8 * sizeof(T)))) : T(0), s, true);
}
template <typename T>
void c_fft(unsigned word, unsigned k, unsigned m, unsigned s)
{
    fec::RsGf2nFft<T> f(word, k, m);
    c_code<T>(f, BIN | 8 * word, 8 * word < 8 * sizeof(T) ? T(T(1) << (8 * word % (8 * sizeof(T)))) : T(0), s, false);
}
template <typename T>
void c_prime(unsigned word, unsigned k, unsigned m, unsigned s)
{
    const uint64_t p = word == 4 ? 4294991873ull : (1ull << (8 * word)) + 1;
    fec::RsGfpFft<T> f(word, k, m);
    c_code<T>(f, p, T(1ull << (8 * word)), s, false);
}
#define MAT(T, w, k, m, s)                                                                                                   \
    CONTRACT(vander_##w##_##k##_##m##_##s) { c_matrix<T>(w, k, m, fec::RsMatrixType::VANDERMONDE, s); }                       \
    CONTRACT(cauchy_##w##_##k##_##m##_##s) { c_matrix<T>(w, k, m, fec::RsMatrixType::CAUCHY, s); }
#define FFT(T, w, k, m, s) CONTRACT(fft_##w##_##k##_##m##_##s) { c_fft<T>(w, k, m, s); }
#define PRIME(T, w, k, m, s) CONTRACT(prime_##w##_##k##_##m##_##s) { c_prime<T>(w, k, m, s); }
#define ALL2(M, T, w, k, m) M(T, w, k, m, 0) M(T, w, k, m, 1)
#define ALL3(M, T, w, k, m) ALL2(M, T, w, k, m) M(T, w, k, m, 2)
#define ALL4(M, T, w, k, m) ALL3(M, T, w, k, m) M(T, w, k, m, 3)
#define ALL6(M, T, w, k, m) ALL4(M, T, w, k, m) M(T, w, k, m, 4) M(T, w, k, m, 5)
#define ALL10(M, T, w, k, m) ALL6(M, T, w, k, m) M(T, w, k, m, 6) M(T, w, k, m, 7) M(T, w, k, m, 8) M(T, w, k, m, 9)
ALL2(MAT, uint32_t, 1, 1, 1)
ALL3(MAT, uint32_t, 2, 2, 1)
ALL6(MAT, uint32_t, 1, 2, 2)
ALL6(MAT, uint64_t, 4, 2, 2)
ALL10(MAT, uint32_t, 1, 3, 2)
ALL10(MAT, uint32_t, 1, 2, 3)
ALL2(FFT, uint32_t, 1, 1, 1)
ALL3(FFT, uint32_t, 2, 2, 1)
ALL6(FFT, uint32_t, 1, 2, 2)
ALL10(FFT, uint32_t, 1, 3, 2)
ALL2(PRIME, uint32_t, 1, 1, 1)
ALL3(PRIME, uint32_t, 2, 2, 1)
ALL6(PRIME, uint32_t, 1, 2, 2)
ALL6(PRIME, uint64_t, 4, 2, 2)
ALL10(PRIME, uint32_t, 2, 3, 2)
// the symbols of RsGfpFft that do not fit in a word
struct Ghost {
    Properties* first;
    unsigned n;
    unsigned count[16];
    size_t at[16];
    uint32_t marker[16];
};
static Ghost ghost;
extern "C" void spec_props_add(Properties* self, size_t location, uint32_t marker)
{
    const unsigned j = unsigned(self - ghost.first);
    ghost.count[j]++;
    ghost.at[j] = location;
    ghost.marker[j] = marker;
}
template <typename T>
void c_marks(unsigned word, unsigned k, unsigned m)
{
    const uint64_t p = word == 4 ? 4294991873ull : (1ull << (8 * word)) + 1, limit = 1ull << (8 * word);
    const size_t offset = qdv_any<uint64_t>("offset");
    fec::RsGfpFft<T> f(word, k, m);
    AnyVector<T> y(f.get_gf(), f.get_n_outputs(), "y", T(p));
    std::vector<Properties> props(k + m);
    ghost.first = props.data();
    for (unsigned j = 0; j < 16; j++)
        ghost.count[j] = 0;
    f.encode_post_process(y.v, props, off_t(offset));
    for (unsigned j = 0; j < k + m; j++) {
        const bool special = y.old[j] >= limit;
        __qdv_assert(ghost.count[j] == (special ? 1 : 0), "one record per symbol that does not fit in a word, none otherwise");
        __qdv_assert(!special || (ghost.at[j] == offset && ghost.marker[j] == OOR_MARK), "at the place of the symbol");
        __qdv_assert(y.p[j] == (special ? y.old[j] - limit : y.old[j]), "the symbol less the limit");
    }
}
#define MARKS(T, w, k, m) CONTRACT(marks_##w##_##k##_##m) { c_marks<T>(w, k, m); }
MARKS(uint32_t, 1, 2, 1)
MARKS(uint32_t, 2, 2, 2)
MARKS(uint64_t, 4, 3, 2)
// a record at this place puts the symbol back; records of other places are left for later
template <typename T>
void c_prepare(unsigned word, unsigned k, unsigned m, unsigned marked, bool later)
{
    const uint64_t limit = 1ull << (8 * word);
    const size_t offset = qdv_any<uint64_t>("offset"), after = qdv_any<uint64_t>("after");
    __qdv_assume(offset < (1ull << 40) && after > offset && after < (1ull << 41));
    fec::RsGfpFft<T> f(word, k, m);
    AnyVector<T> w(f.get_gf(), k, "w", T(limit));
    vec::Vector<T> ids(f.get_gf(), int(k));
    std::vector<Properties> props(f.get_n_outputs());
    for (unsigned i = 0; i < k; i++) {
        ids.set(i, T(m + i));
        if (marked >> i & 1)
            props[m + i].add(offset, OOR_MARK);
        if (later)
            props[m + i].add(after, OOR_MARK);
    }
    std::unique_ptr<fec::DecodeContext<T>> context = f.init_context_dec(ids, props, 0, nullptr);
    f.decode_prepare(*context, props, off_t(offset), w.v);
    for (unsigned i = 0; i < k; i++) {
        __qdv_assert(w.p[i] == w.old[i] + (marked >> i & 1 ? limit : 0), "the symbols with a record here get the limit back");
        __qdv_assert(context->props_indices[m + i] == (marked >> i & 1), "the records of later places are still to come");
    }
}
#define PREPARE(T, w, k, m, M)                                                  \
    CONTRACT(prepare_##w##_##k##_##M) { c_prepare<T>(w, k, m, M, false); }       \
    CONTRACT(prepare_later_##w##_##k##_##M) { c_prepare<T>(w, k, m, M, true); }
PREPARE(uint32_t, 1, 2, 2, 0)
PREPARE(uint32_t, 1, 2, 2, 1)
PREPARE(uint32_t, 2, 2, 2, 2)
PREPARE(uint64_t, 4, 2, 2, 3)
PREPARE(uint64_t, 4, 3, 1, 5)
