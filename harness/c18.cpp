// C18: packing words into symbols and back; word-wise stream I/O.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
typedef hx::u128 u128;
static u128 le(const uint8_t* p, size_t ws) { u128 v = 0; for (size_t i = ws; i-- > 0;) v = v << 8 | p[i]; return v; }
static uint8_t rb(int mode) { return mode == 0 ? hx::R() : mode == 1 ? 255 : mode == 2 ? 0 : hx::R(3) ? 0x80 : 0x7f; }

// Ts: storage type of the raw side, Td: symbol type
template <typename Ts, typename Td> void packs(int n, size_t size, size_t ws, int mode)
{
    if (sizeof(Td) < ws || ws % sizeof(Ts)) return;
    hx::at("pack %d-bit -> %d-bit, word size %zu, %d buffers of %zu words, content %d", (int)sizeof(Ts) * 8, (int)sizeof(Td) * 8, ws, n, size, mode);
    std::vector<std::unique_ptr<hx::Guarded<Ts>>> src, back; std::vector<std::unique_ptr<hx::Guarded<Td>>> dst;
    std::vector<Ts*> sp, bp; std::vector<Td*> dp;
    size_t ns = size * ws / sizeof(Ts);
    for (int i = 0; i < n; i++) {
        src.emplace_back(new hx::Guarded<Ts>(ns)); back.emplace_back(new hx::Guarded<Ts>(ns)); dst.emplace_back(new hx::Guarded<Td>(size));
        sp.push_back(src[i]->p()); bp.push_back(back[i]->p()); dp.push_back(dst[i]->p());
        for (size_t j = 0; j < size * ws; j++) ((uint8_t*)sp[i])[j] = rb(mode);
    }
    std::vector<std::vector<uint8_t>> orig; for (int i = 0; i < n; i++) orig.emplace_back((uint8_t*)sp[i], (uint8_t*)sp[i] + size * ws);
    vec::pack<Ts, Td>(sp, dp, n, size, ws);
    for (int i = 0; i < n; i++) {
        for (size_t j = 0; j < size; j++) CHECK((u128)dp[i][j] == le(orig[i].data() + j * ws, ws), "buffer %d symbol %zu is %s, word is %s", i, j, hx::SC((u128)dp[i][j]), hx::SC(le(orig[i].data() + j * ws, ws)));
        CHECK(src[i]->intact() && dst[i]->intact(), "pack wrote outside of buffer %d", i);
        CHECK(std::equal(orig[i].begin(), orig[i].end(), (uint8_t*)sp[i]), "pack modified its source %d", i);
    }
    vec::unpack<Td, Ts>(dp, bp, n, size, ws);
    for (int i = 0; i < n; i++) {
        CHECK(std::equal(orig[i].begin(), orig[i].end(), (uint8_t*)bp[i]), "unpack does not give back buffer %d", i);
        CHECK(back[i]->intact() && dst[i]->intact(), "unpack wrote outside of buffer %d", i);
    }
}
template <typename Ts, typename Td> void all()
{
    for (int r = 0; r < hx::scale(); r++)
        for (size_t ws : {1, 2, 4, 8, 16}) for (int n : {0, 1, 3, 9}) for (size_t size : {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 33, 64, 100}) for (int m = 0; m < 4; m++) packs<Ts, Td>(n, size, ws, m);
}
SEC(pack8) { all<uint8_t, uint16_t>(); all<uint8_t, uint32_t>(); all<uint8_t, uint64_t>(); all<uint8_t, __uint128_t>(); all<uint8_t, uint8_t>(); }
SEC(packwide) { all<uint16_t, uint32_t>(); all<uint16_t, uint16_t>(); all<uint32_t, uint32_t>(); all<uint32_t, uint64_t>(); all<uint64_t, uint64_t>(); all<uint32_t, __uint128_t>(); all<uint64_t, __uint128_t>(); all<uint16_t, uint64_t>(); }

template <typename T> struct Code : fec::FecCode<T> {
    Code(unsigned ws, size_t pkt) : fec::FecCode<T>(fec::FecType::SYSTEMATIC, ws, 2, 1, pkt) {}
    int get_n_outputs() override { return 1; }
    void encode(vec::Vector<T>&, std::vector<Properties>&, off_t, vec::Vector<T>&) override {}
    void check_params() override {} void init_gf() override {} void init_fft() override {} void init_others() override {}
};
template <typename T> void words(unsigned ws)
{
    if (sizeof(T) < ws) return;
    for (int n : {0, 1, 2, 5, 17}) for (unsigned extra = 0; extra < ws; extra++) for (int mode = 0; mode < 4; mode++) {
        hx::at("stream of %d words of %u bytes plus %u bytes, %d-bit symbols", n, ws, extra, (int)sizeof(T) * 8);
        std::string raw; for (unsigned i = 0; i < n * ws + extra; i++) raw.push_back((char)rb(mode));
        std::istringstream is(raw); std::ostringstream os; Code<T> c(ws, 8);
        for (int i = 0; i < n; i++) {
            T v = (T)hx::R();
            CHECK(c.readw(&v, &is), "word %d not read", i);
            CHECK((u128)v == le((const uint8_t*)raw.data() + i * ws, ws), "word %d read as %s", i, hx::SC((u128)v));
            CHECK(c.writew(v, &os), "word %d not written", i);
        }
        T w = (T)5; CHECK(!c.readw(&w, &is), "a short read is not reported"); CHECK(w == (T)5, "a short read changed the symbol");
        CHECK(os.str() == raw.substr(0, n * ws), "written bytes differ");
        { T big = (T)~(T)0; std::ostringstream o2; CHK(c.writew(big, &o2)); CHK(o2.str() == std::string(ws, '\xff')); }
        { std::ostringstream bad; bad.setstate(std::ios::badbit); CHECK(!c.writew(1, &bad), "a failed write is not reported"); }
    }
    for (size_t pkt : {1, 2, 8, 33}) for (int full : {0, 1, 2}) for (size_t ex = 0; ex < pkt * ws; ex += 1 + ex / 3) {
        hx::at("packets of %zu words of %u bytes: %d full and %zu bytes", pkt, ws, full, ex);
        Code<T> c(ws, pkt); CHK(c.buf_size == pkt * ws);
        std::string raw; for (size_t i = 0; i < full * pkt * ws + ex; i++) raw.push_back((char)hx::R());
        std::istringstream is(raw); std::ostringstream os; hx::Guarded<char> b(pkt * ws);
        for (int i = 0; i < full; i++) { CHECK(c.read_pkt(b.p(), is), "packet %d not read", i); CHK(b.intact()); CHK(std::equal(b.p(), b.p() + pkt * ws, raw.data() + i * pkt * ws)); CHK(c.write_pkt(b.p(), os, pkt * ws)); }
        CHECK(!c.read_pkt(b.p(), is), "a short packet is not reported"); CHK((size_t)is.gcount() == ex); CHK(b.intact()); CHK(std::equal(b.p(), b.p() + ex, raw.data() + full * pkt * ws));
        CHK(c.write_pkt(b.p(), os, ex)); CHECK(os.str() == raw, "written packets differ");
    }
}
SEC(streams) { for (unsigned ws : {1u, 2u, 4u, 8u, 16u}) { words<uint16_t>(ws); words<uint32_t>(ws); words<uint64_t>(ws); words<__uint128_t>(ws); } }
HX_MAIN
