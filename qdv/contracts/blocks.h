// The block drivers around any code: packets, partial packets, wanted and missing fragments
#ifndef QDV_BLOCKS_H
#define QDV_BLOCKS_H
#include "quadiron.h"
#include "qdv.h"
using namespace quadiron;

// a code of which encode and decode compute any function of the words of a position
struct AnyCode : fec::FecCode<uint32_t> {
    size_t next = 0;     // offset expected by the next call
    size_t n_words = 0;  // words of a fragment: beyond them only zeros are coded
    uint64_t subset = 0; // of the fragments given to decode
    AnyCode(fec::FecType t, unsigned w, unsigned k, unsigned m, size_t pkt) : fec::FecCode<uint32_t>(t, w, k, m, pkt)
    {
        gf = gf::alloc<gf::Field<uint32_t>, gf::Prime<uint32_t>>(65537u);
    }
    int get_n_outputs() override { return int(n_outputs); }
    void check_params() override {}
    void init_gf() override {}
    void init_fft() override {}
    void init_others() override {}
    static uint32_t enc(unsigned o, size_t at, const uint32_t* x)
    {
        return uint32_t(__qdv_uf("enc", uint64_t(o), uint64_t(at), uint64_t(x[0]), uint64_t(x[1]), uint64_t(x[2])));
    }
    uint32_t dec(unsigned i, size_t at, const uint32_t* x)
    {
        return uint32_t(__qdv_uf("dec", subset, uint64_t(i), uint64_t(at), uint64_t(x[0]), uint64_t(x[1]), uint64_t(x[2])));
    }
    void encode(vec::Buffers<uint32_t>& output, std::vector<Properties>& props, off_t offset, vec::Buffers<uint32_t>& words) override
    {
        __qdv_assert(size_t(offset) == next, "encode: the offset of the packet");
        __qdv_assert(unsigned(words.get_n()) == n_data && words.get_size() == pkt_size, "encode: words of one packet");
        __qdv_assert(unsigned(output.get_n()) == n_outputs && output.get_size() == pkt_size, "encode: room for one packet");
        __qdv_assert(props.size() == n_outputs, "encode: one record per output");
        trailing(offset, words);
        for (size_t l = 0; l < pkt_size; l++) {
            uint32_t x[3] = {0, 0, 0};
            for (unsigned i = 0; i < n_data; i++)
                x[i] = words.get(i)[l];
            for (unsigned o = 0; o < n_outputs; o++)
                output.get(o)[l] = enc(o, offset + l, x);
        }
        next += pkt_size;
    }
    // (what is left of other words would give records of symbols that are not in the fragments)
    void trailing(off_t offset, vec::Buffers<uint32_t>& words)
    {
        for (size_t l = 0; l < pkt_size; l++)
            for (unsigned i = 0; i < n_data; i++)
                __qdv_assert(offset + l < n_words || words.get(i)[l] == 0, "zeros behind the end of the data");
    }
    // symbol by symbol
    void encode(vec::Vector<uint32_t>& output, std::vector<Properties>& props, off_t offset, vec::Vector<uint32_t>& words) override
    {
        __qdv_assert(size_t(offset) == next, "encode: the offset of the symbol");
        __qdv_assert(unsigned(words.get_n()) == n_data && unsigned(output.get_n()) == n_outputs && props.size() == n_outputs, "encode: one word of every fragment");
        uint32_t x[3] = {0, 0, 0};
        for (unsigned i = 0; i < n_data; i++)
            x[i] = words.get(i);
        for (unsigned o = 0; o < n_outputs; o++)
            output.set(o, enc(o, offset, x));
        next++;
    }
    void decode(fec::DecodeContext<uint32_t>&, vec::Vector<uint32_t>& output, const std::vector<Properties>& props, off_t offset, vec::Vector<uint32_t>& words) override
    {
        __qdv_assert(size_t(offset) == next, "decode: the offset of the symbol");
        __qdv_assert(unsigned(words.get_n()) >= n_data && unsigned(output.get_n()) == n_data, "decode: one word of every fragment");
        uint32_t x[3] = {0, 0, 0};
        for (unsigned i = 0; i < n_data; i++)
            x[i] = words.get(i);
        for (unsigned i = 0; i < n_data; i++)
            output.set(i, dec(i, offset, x));
        next++;
    }
    std::unique_ptr<fec::DecodeContext<uint32_t>> init_context_dec(vec::Vector<uint32_t>& ids, std::vector<Properties>& props, size_t size, vec::Buffers<uint32_t>* output) override
    {
        __qdv_assert(unsigned(ids.get_n()) == n_data, "decoding is prepared for n_data fragments");
        if (output)
            __qdv_assert(size == pkt_size && unsigned(output->get_n()) == n_data && output->get_size() == pkt_size, "decoding is prepared for one packet");
        for (unsigned i = 0; i < n_data; i++)
            subset = subset * 16 + ids.get(int(i));
        return nullptr;
    }
    void decode(fec::DecodeContext<uint32_t>&, vec::Buffers<uint32_t>& output, const std::vector<Properties>& props, off_t offset, vec::Buffers<uint32_t>& words) override
    {
        __qdv_assert(size_t(offset) == next, "decode: the offset of the packet");
        __qdv_assert(unsigned(words.get_n()) == n_data && words.get_size() == pkt_size, "decode: words of one packet");
        trailing(offset, words);
        for (size_t l = 0; l < pkt_size; l++) {
            uint32_t x[3] = {0, 0, 0};
            for (unsigned i = 0; i < n_data; i++)
                x[i] = words.get(i)[l];
            for (unsigned i = 0; i < n_data; i++)
                output.get(i)[l] = dec(i, offset + l, x);
        }
        next += pkt_size;
    }
};
static const size_t SLACK = 3;
struct AnyBlocks {
    uint8_t *p[8], *old[8];
    AnyBlocks(unsigned n, size_t bytes, const char* name)
    {
        for (unsigned i = 0; i < n; i++) {
            p[i] = qdv_array<uint8_t>(bytes, name);
            old[i] = qdv_clone(p[i]);
        }
    }
};
// word number e of a block
inline uint32_t word(const uint8_t* b, size_t e, unsigned word)
{
    uint32_t v = 0;
    for (unsigned j = 0; j < word; j++)
        v |= uint32_t(b[e * word + j]) << (8 * j);
    return v;
}
inline void c_enc_blocks(bool sys, unsigned wd, unsigned k, unsigned m, size_t pkt, size_t limit)
{
    const size_t block = qdv_any<uint64_t>("block");
    __qdv_assume(block <= limit);
    AnyCode code(sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, wd, k, m, pkt);
    const unsigned outs = sys ? m : k + m;
    AnyBlocks in(k, block, "in"), out(outs, block + SLACK, "out");
    std::vector<uint8_t*> d(in.p, in.p + k), q(out.p, out.p + outs);
    std::vector<Properties> props(outs);
    for (unsigned o = 0; o < outs; o++)
        props[o].add(7, 8);
    std::vector<bool> wanted(outs);
    bool want[8];
    for (unsigned o = 0; o < outs; o++) {
        want[o] = qdv_any<bool>("wanted");
        wanted[o] = want[o];
    }
    code.n_words = block / wd;
    code.encode_blocks_vertical(d, q, props, wanted, block);
    const size_t n = block / wd;
    __qdv_assert(code.next == (n + pkt - 1) / pkt * pkt, "one call per packet");
    for (unsigned o = 0; o < outs; o++)
        __qdv_assert(props[o].get_map().empty(), "records of an earlier block are dropped");
    const size_t b = qdv_any<uint64_t>("b");
    {
        __qdv_assume(b < block + SLACK);
        const size_t e = b / wd;
        uint32_t x[3] = {0, 0, 0};
        if (e < n)
            for (unsigned i = 0; i < k; i++)
                x[i] = word(in.old[i], e, wd);
        for (unsigned o = 0; o < outs; o++)
            if (e < n && want[o])
                __qdv_assert(out.p[o][b] == uint8_t(AnyCode::enc(o, e, x) >> (8 * (b % wd))), "the fragments hold what encode computes of the words at the same position");
            else
                __qdv_assert(out.p[o][b] == out.old[o][b], "nothing is written to fragments not wanted, or behind the block");
        if (b < block)
            for (unsigned i = 0; i < k; i++)
                __qdv_assert(in.p[i][b] == in.old[i][b], "the data is unchanged");
    }
}
inline void c_dec_blocks(bool sys, unsigned wd, unsigned k, unsigned m, size_t pkt, size_t limit, unsigned present)
{
    const size_t block = qdv_any<uint64_t>("block");
    __qdv_assume(block <= limit);
    AnyCode code(sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, wd, k, m, pkt);
    const unsigned outs = sys ? m : k + m;
    AnyBlocks in(k, block + SLACK, "data"), out(outs, block, "frag");
    std::vector<uint8_t*> d(in.p, in.p + k), q(out.p, out.p + outs);
    std::vector<Properties> props(outs);
    std::vector<bool> wanted(k);
    bool want[8];
    std::vector<int> missing(k + m);
    for (unsigned i = 0; i < k; i++) {
        want[i] = qdv_any<bool>("wanted");
        wanted[i] = want[i];
    }
    // the first k fragments that are there are used; absent ones have no block
    const uint8_t* use[3];
    unsigned n_use = 0;
    uint64_t subset = 0;
    bool all = sys;
    for (unsigned i = 0; i < k + m; i++) {
        const bool here = present >> i & 1;
        missing[i] = here ? 0 : 1;
        if (sys && i < k && !here)
            all = false;
        if (here && n_use < k) {
            use[n_use++] = sys ? (i < k ? in.old[i] : out.old[i - k]) : out.old[i];
            subset = subset * 16 + i;
        }
        if (!here && !(sys && i < k))
            q[sys ? i - k : i] = nullptr;
    }
    code.n_words = block / wd;
    const bool ret = code.decode_blocks_vertical(d, q, props, missing, wanted, block);
    __qdv_assert(ret == (n_use == k), "refused exactly when there are not enough fragments");
    const size_t n = ret && !all ? block / wd : 0;
    __qdv_assert(code.next == (n + pkt - 1) / pkt * pkt, "one call per packet");
    if (n)
        __qdv_assert(code.subset == subset, "decoding is prepared for the fragments that are there, in ascending order");
    code.subset = subset;
    const size_t b = qdv_any<uint64_t>("b");
    {
        __qdv_assume(b < block + SLACK);
        const size_t e = b / wd;
        uint32_t x[3] = {0, 0, 0};
        if (e < n)
            for (unsigned i = 0; i < k; i++)
                x[i] = word(use[i], e, wd);
        for (unsigned i = 0; i < k; i++)
            if (e < n && want[i])
                __qdv_assert(in.p[i][b] == uint8_t(code.dec(i, e, x) >> (8 * (b % wd))), "the data blocks hold what decode computes of the words at the same position");
            else
                __qdv_assert(in.p[i][b] == in.old[i][b], "nothing is written to data not wanted, or behind the block");
        if (b < block)
            for (unsigned o = 0; o < outs; o++)
                __qdv_assert(out.p[o][b] == out.old[o][b], "the fragments are unchanged");
    }
}

// streams over memory: reading and writing stand by their contracts
struct In {
    alignas(16) char raw[sizeof(std::istream)];
    const uint8_t* data;
    size_t len, pos;
    std::istream* stream(const uint8_t* d, size_t n)
    {
        data = d;
        len = n;
        pos = 0;
        return reinterpret_cast<std::istream*>(raw);
    }
};
struct Out {
    alignas(16) char raw[sizeof(std::ostream)];
    uint8_t* data;
    size_t room, pos;
    std::ostream* stream(uint8_t* d, size_t n)
    {
        data = d;
        room = n;
        pos = 0;
        return reinterpret_cast<std::ostream*>(raw);
    }
};
extern "C" bool spec_readw(fec::FecCode<uint32_t>* self, uint32_t* p, std::istream* stream)
{
    In* in = reinterpret_cast<In*>(stream);
    const bool ok = in->len - in->pos >= self->word_size;
    if (ok) {
        *p = word(in->data + in->pos, 0, self->word_size);
        in->pos += self->word_size;
    } else
        in->pos = in->len;
    return ok;
}
extern "C" bool spec_writew(fec::FecCode<uint32_t>* self, uint32_t v, std::ostream* stream)
{
    Out* out = reinterpret_cast<Out*>(stream);
    __qdv_assert(out->pos + self->word_size <= out->room, "not more is written than the fragments hold");
    for (unsigned j = 0; j < self->word_size; j++)
        out->data[out->pos + j] = uint8_t(v >> (8 * j));
    out->pos += self->word_size;
    return true;
}
extern "C" bool spec_read_pkt(fec::FecCode<uint32_t>* self, char* pkt, std::istream* stream)
{
    In* in = reinterpret_cast<In*>(stream);
    const size_t n = std::min(self->buf_size, in->len - in->pos);
    memcpy(pkt, in->data + in->pos, n);
    in->pos += n;
    stream->_M_gcount = std::streamsize(n);
    return n == self->buf_size;
}
extern "C" bool spec_write_pkt(fec::FecCode<uint32_t>*, char* pkt, std::ostream* stream, size_t n)
{
    Out* out = reinterpret_cast<Out*>(stream);
    __qdv_assert(out->pos + n <= out->room, "not more is written than the fragments hold");
    memcpy(out->data + out->pos, pkt, n);
    out->pos += n;
    return true;
}
inline void c_enc_streams(bool vertical, bool sys, unsigned wd, unsigned k, unsigned m, size_t pkt, size_t limit)
{
    const size_t n = qdv_any<uint64_t>("words");
    __qdv_assume(n <= limit);
    const size_t len = n * wd;
    AnyCode code(sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, wd, k, m, pkt);
    code.n_words = n;
    const unsigned outs = sys ? m : k + m;
    AnyBlocks in(k, len, "in"), out(outs, len, "out");
    In is[3];
    Out os[8];
    std::vector<std::istream*> d;
    std::vector<std::ostream*> q;
    bool want[8];
    for (unsigned i = 0; i < k; i++)
        d.push_back(is[i].stream(in.p[i], len));
    for (unsigned o = 0; o < outs; o++) {
        std::ostream* s = os[o].stream(out.p[o], len);
        want[o] = qdv_any<bool>("wanted");
        q.push_back(want[o] ? s : nullptr);
    }
    std::vector<Properties> props(outs);
    for (unsigned o = 0; o < outs; o++)
        props[o].add(7, 8);
    if (vertical)
        code.encode_streams_vertical(d, q, props);
    else
        code.encode_streams_horizontal(d, q, props);
    __qdv_assert(code.next == (vertical ? (n + pkt - 1) / pkt * pkt : n), "one call per packet or symbol");
    const size_t b = qdv_any<uint64_t>("b");
    const size_t e = b / wd;
    for (unsigned o = 0; o < outs; o++) {
        __qdv_assert(props[o].get_map().empty(), "records of earlier data are dropped");
        __qdv_assert(os[o].pos == (want[o] ? len : 0), "as many bytes as the data");
    }
    if (b < len) {
        uint32_t x[3] = {0, 0, 0};
        for (unsigned i = 0; i < k; i++)
            x[i] = word(in.old[i], e, wd);
        for (unsigned o = 0; o < outs; o++)
            if (want[o])
                __qdv_assert(out.p[o][b] == uint8_t(AnyCode::enc(o, e, x) >> (8 * (b % wd))), "the fragments hold what encode computes of the words at the same position");
    }
}
inline void c_dec_streams(bool vertical, bool sys, unsigned wd, unsigned k, unsigned m, size_t pkt, size_t limit, unsigned present)
{
    const size_t n = qdv_any<uint64_t>("words");
    __qdv_assume(n <= limit);
    const size_t len = n * wd;
    AnyCode code(sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, wd, k, m, pkt);
    code.n_words = n;
    const unsigned outs = sys ? m : k + m;
    AnyBlocks in(k + m, len, "frag"), out(k, len, "data");
    In is[8];
    Out os[3];
    std::vector<std::istream*> d, q;
    std::vector<std::ostream*> z;
    bool want[3], all = sys;
    for (unsigned i = 0; i < k; i++) {
        std::ostream* s = os[i].stream(out.p[i], len);
        want[i] = qdv_any<bool>("wanted");
        z.push_back(want[i] ? s : nullptr);
        if (!(present >> i & 1))
            all = false;
    }
    const uint8_t* use[3];
    unsigned n_use = 0;
    uint64_t subset = 0;
    for (unsigned i = 0; i < k + m; i++) {
        const bool here = present >> i & 1;
        std::istream* s = here ? is[i].stream(in.p[i], len) : nullptr;
        (sys && i < k ? d : q).push_back(s);
        if (here && n_use < k) {
            use[n_use++] = in.old[i];
            subset = subset * 16 + i;
        }
    }
    std::vector<Properties> props(outs);
    const bool ret = vertical ? code.decode_streams_vertical(d, q, props, z) : code.decode_streams_horizontal(d, q, props, z);
    __qdv_assert(ret == (n_use == k), "refused exactly when there are not enough fragments");
    const bool coded = ret && !all;
    __qdv_assert(code.next == (!coded ? 0 : vertical ? (n + pkt - 1) / pkt * pkt : n), "one call per packet or symbol");
    if (coded)
        __qdv_assert(code.subset == subset, "decoding is prepared for the fragments that are there, in ascending order");
    code.subset = subset;
    const size_t b = qdv_any<uint64_t>("b");
    const size_t e = b / wd;
    for (unsigned i = 0; i < k; i++)
        __qdv_assert(os[i].pos == (coded && want[i] ? len : 0), "as many bytes as the fragments hold");
    if (coded && b < len) {
        uint32_t x[3] = {0, 0, 0};
        for (unsigned i = 0; i < k; i++)
            x[i] = word(use[i], e, wd);
        for (unsigned i = 0; i < k; i++)
            if (want[i])
                __qdv_assert(out.p[i][b] == uint8_t(code.dec(i, e, x) >> (8 * (b % wd))), "the data holds what decode computes of the words at the same position");
    }
}
#endif
