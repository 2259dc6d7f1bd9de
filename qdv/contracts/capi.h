// The C API: pointers, headers and refusals, for any contents, block size and choice of
// missing and wanted fragments.  The block drivers and the header functions stand by their
// contracts (spec_*).
#ifndef QDV_CAPI_H
#define QDV_CAPI_H
#include "quadiron.h"
#include "quadiron_c.h"
#include "qdv.h"
using namespace quadiron;
typedef fec::RsFnt<uint32_t> Code;

static const unsigned MAX = 8;
static struct {
    // the situation
    Code* fec;
    bool sys;
    unsigned k, m, outs;
    size_t block, md;
    uint8_t *data[MAX], *parity[MAX];
    bool missing[2 * MAX];
    bool wanted[2 * MAX];
    // what happened
    Properties* props;          // first of the list of records given to the block drivers
    unsigned n_dec, n_enc;      // calls of the block drivers
    bool dec_ok;
    bool refused;               // a header function returned -1
    bool read[2 * MAX];         // header of fragment i was read into its record
    bool wrote[2 * MAX];        // header of fragment i was written from its record
    bool empty[2 * MAX];        // an empty record was written to the header of fragment i
    bool dec_wanted[MAX];       // expected by the next call of decode
    bool dec_scratch[MAX];      // data block i is a scratch block of the caller
    uint8_t* scratch[MAX];
    bool enc_wanted[2 * MAX];   // expected by the next call of encode
} w;
static uint8_t* chunk(unsigned i) { return i < w.k ? w.data[i] : w.parity[i - w.k]; }
// the fragment at position o of the outputs
static unsigned frag(unsigned o) { return w.sys ? w.k + o : o; }

extern "C" void spec_encode(Code* self, std::vector<uint8_t*>& data, std::vector<uint8_t*>& par, std::vector<Properties>& props, std::vector<bool>& wanted, size_t block)
{
    __qdv_assert(self == w.fec && block == w.block, "encode: same code and block size");
    __qdv_assert(data.size() == w.k && par.size() == w.outs && props.size() == w.outs && wanted.size() == w.outs, "encode: lists of the right lengths");
    for (unsigned i = 0; i < w.k; i++)
        if (!w.dec_scratch[i])
            __qdv_assert(data[i] == w.data[i] + w.md, "encode: data blocks behind the headers");
        else
            __qdv_assert(data[i] == w.scratch[i], "encode: the data block that was decoded");
    for (unsigned o = 0; o < w.outs; o++) {
        __qdv_assert(wanted[o] == w.enc_wanted[o], "encode: the wanted fragments");
        if (w.enc_wanted[o])
            __qdv_assert(par[o] == chunk(frag(o)) + w.md, "encode: output blocks behind the headers");
    }
    w.props = props.data();
    w.n_enc++;
}
extern "C" bool spec_decode(Code* self, std::vector<uint8_t*>& data, std::vector<uint8_t*>& par, std::vector<Properties>& props, std::vector<int>& missing, std::vector<bool>& wanted, size_t block)
{
    __qdv_assert(self == w.fec && block == w.block, "decode: same code and block size");
    __qdv_assert(data.size() == w.k && par.size() == w.outs && props.size() == w.outs && wanted.size() == w.k && missing.size() >= w.k + w.m, "decode: lists of the right lengths");
    for (unsigned i = 0; i < w.k; i++) {
        __qdv_assert(wanted[i] == w.dec_wanted[i], "decode: the wanted data");
        if (!w.dec_scratch[i])
            __qdv_assert(data[i] == w.data[i] + w.md, "decode: data blocks behind the headers");
        else
            __qdv_assert(__qdv_alloc_bytes(data[i]) >= w.block && __qdv_offset(data[i]) == 0, "decode: a scratch block of the block size");
        w.scratch[i] = data[i];
    }
    for (unsigned o = 0; o < w.outs; o++)
        if (!w.missing[frag(o)])
            __qdv_assert(par[o] == chunk(frag(o)) + w.md, "decode: blocks behind the headers");
    for (unsigned i = 0; i < w.k + w.m; i++)
        __qdv_assert((missing[i] != 0) == w.missing[i], "decode: the missing fragments");
    for (unsigned o = 0; o < w.outs; o++)
        if (!w.missing[frag(o)])
            __qdv_assert(w.read[frag(o)], "decode: the records of the fragments were read");
    if (w.props)
        __qdv_assert(props.data() == w.props, "decode: the records that were read");
    w.n_dec++;
    w.dec_ok = qdv_any<bool>("decoded");
    return w.dec_ok;
}
extern "C" int spec_read(Properties* self, uint32_t* header, unsigned n)
{
    __qdv_assert(n == w.md / 4, "header of the announced size");
    const bool ok = qdv_any<bool>("valid");
    bool found = false;
    for (unsigned o = 0; o < w.outs; o++)
        if (reinterpret_cast<uint8_t*>(header) == chunk(frag(o)) && !w.missing[frag(o)]) {
            found = true;
            Properties* first = self - o;
            if (w.props)
                __qdv_assert(first == w.props, "read: header o into record o");
            w.props = first;
            if (ok)
                w.read[frag(o)] = true;
        }
    __qdv_assert(found, "read: the header of a fragment that is there");
    w.refused |= !ok;
    return ok ? 0 : -1;
}
extern "C" int spec_write(Properties* self, uint32_t* header, unsigned n)
{
    __qdv_assert(n == w.md / 4, "header of the announced size");
    const bool ok = qdv_any<bool>("fits");
    bool found = false;
    bool own = false;
    for (unsigned o = 0; o < w.outs; o++)
        if (w.n_enc > 0 && self == w.props + o) {
            own = true;
            __qdv_assert(reinterpret_cast<uint8_t*>(header) == chunk(frag(o)), "write: record o into header o");
            __qdv_assert(!w.wrote[frag(o)], "write: once");
            w.wrote[frag(o)] = true;
        }
    if (!own) {
        __qdv_assert(self->get_map().empty(), "write: an empty record");
        for (unsigned i = 0; i < w.k; i++)
            if (reinterpret_cast<uint8_t*>(header) == w.data[i]) {
                found = true;
                w.empty[i] = true;
            }
        __qdv_assert(found, "write: into the header of a data fragment");
    }
    w.refused |= !ok;
    return ok ? 0 : -1;
}
alignas(64) static char object[sizeof(Code)];
// `extra`: state of nothing else
static void setup(bool sys, unsigned k, unsigned m)
{
    Code* fec = reinterpret_cast<Code*>(object);
    fec->type = sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC;
    fec->n_data = k;
    fec->n_parities = m;
    fec->code_len = k + m;
    fec->n_outputs = sys ? m : k + m;
    w.fec = fec;
    w.sys = sys;
    w.k = k;
    w.m = m;
    w.outs = fec->n_outputs;
    w.block = qdv_any<uint64_t>("block");
    __qdv_assume(w.block < (1ull << 40));
    w.md = (w.block / 65536 + 16) * 4;
    for (unsigned i = 0; i < k; i++)
        w.data[i] = qdv_array<uint8_t>(w.md + w.block, "data");
    for (unsigned i = 0; i < m; i++)
        w.parity[i] = qdv_array<uint8_t>(w.md + w.block, "parity");
}
static QuadironFnt32* api() { return reinterpret_cast<QuadironFnt32*>(object); }

inline void c_encode(bool sys, unsigned k, unsigned m)
{
    setup(sys, k, m);
    int* wanted = qdv_array<int>(w.outs, "wanted");
    int* old = qdv_clone(wanted);
    for (unsigned o = 0; o < w.outs; o++)
        w.enc_wanted[o] = old[o] != 0;
    uint8_t *data[MAX], *parity[MAX];
    for (unsigned i = 0; i < k; i++)
        data[i] = w.data[i];
    for (unsigned i = 0; i < m; i++)
        parity[i] = w.parity[i];
    __qdv_assert(size_t(quadiron_fnt32_get_metadata_size(api(), w.block)) == w.md, "header size");
    const int ret = quadiron_fnt32_encode(api(), data, parity, wanted, w.block);
    __qdv_assert(ret == (w.refused ? -1 : 0), "refused exactly when a header does not fit");
    __qdv_assert(w.n_enc == 1 && w.n_dec == 0, "encoded once");
    for (unsigned i = 0; i < k + m; i++) {
        const bool isdata = i < k;
        const bool want = isdata ? !sys : w.enc_wanted[sys ? i - k : i];
        if (ret == 0) {
            __qdv_assert(w.wrote[i] == want, "the records of the data (non-systematic) and wanted fragments are written");
            __qdv_assert(w.empty[i] == (isdata && sys), "the headers of systematic data get an empty record");
        } else
            __qdv_assert((!w.wrote[i] || want) && (!w.empty[i] || (isdata && sys)), "no other header is written");
    }
    for (unsigned o = 0; o < w.outs; o++)
        __qdv_assert(wanted[o] == old[o], "the list of wanted fragments is unchanged");
}
inline void any_missing(int* missing, unsigned n)
{
    for (unsigned i = 0; i < n; i++)
        w.missing[i] = missing[i] != 0;
}
inline void c_decode(bool sys, unsigned k, unsigned m)
{
    setup(sys, k, m);
    int* missing = qdv_array<int>(k + m, "missing");
    any_missing(missing, k + m);
    uint8_t *data[MAX], *parity[MAX];
    for (unsigned i = 0; i < k; i++) {
        data[i] = w.data[i];
        w.dec_wanted[i] = true;
    }
    for (unsigned i = 0; i < m; i++)
        parity[i] = w.missing[k + i] ? nullptr : w.parity[i];
    const int ret = quadiron_fnt32_decode(api(), data, parity, missing, w.block);
    __qdv_assert(w.n_enc == 0 && w.n_dec <= 1, "decoded at most once");
    __qdv_assert(ret == (w.refused || !w.dec_ok ? -1 : 0), "refused exactly when a header or the decoder refuses");
    if (ret == 0)
        __qdv_assert(w.n_dec == 1, "decoded");
    for (unsigned i = 0; i < k + m; i++) {
        __qdv_assert(!w.wrote[i], "no record is written");
        if (ret == 0)
            __qdv_assert(w.empty[i] == (i < k), "the headers of the data get an empty record");
        else if (w.n_dec == 0 || !w.dec_ok)
            __qdv_assert(!w.empty[i], "nothing is written when refused");
    }
}
inline void c_reconstruct(bool sys, unsigned k, unsigned m, unsigned dest)
{
    setup(sys, k, m);
    int* missing = qdv_array<int>(k + m, "missing");
    __qdv_assume(missing[dest] != 0);
    any_missing(missing, k + m);
    uint8_t *data[MAX], *parity[MAX];
    for (unsigned i = 0; i < k; i++)
        data[i] = w.data[i];
    for (unsigned i = 0; i < m; i++)
        parity[i] = w.parity[i];
    const bool simple = sys && dest < k;
    bool need = simple || !sys;
    for (unsigned i = 0; i < k; i++) {
        if (!simple)
            w.dec_scratch[i] = !sys || w.missing[i];
        w.dec_wanted[i] = simple ? i == dest : w.dec_scratch[i];
        need |= w.missing[i];
    }
    if (!simple)
        w.enc_wanted[sys ? dest - k : dest] = true;
    const int ret = quadiron_fnt32_reconstruct(api(), data, parity, missing, dest, w.block);
    __qdv_assert(ret == (w.refused || (need && !w.dec_ok) ? -1 : 0), "refused exactly when a header or the decoder refuses");
    if (ret == 0) {
        __qdv_assert(w.n_dec == (need ? 1 : 0), "decoded when a data fragment is needed");
        __qdv_assert(w.n_enc == (simple ? 0 : 1), "the fragment is encoded again");
    }
    for (unsigned i = 0; i < k + m; i++) {
        if (ret == 0) {
            __qdv_assert(w.wrote[i] == (!simple && i == dest), "the record of the fragment is written to its header");
            __qdv_assert(w.empty[i] == (simple && i == dest), "a data fragment gets an empty record");
        } else
            __qdv_assert((!w.wrote[i] && !w.empty[i]) || i == dest, "no other header is written");
    }
}
#endif
