// C06: streams, blocks and packet sizes all give the same code.
#include "streams.h"
template <typename T> Enc enc_blocks(fec::FecCode<T>& f, const SV& data, const std::vector<bool>& want)
{
    size_t bs = data[0].size(); std::vector<std::unique_ptr<hx::Guarded<uint8_t>>> d, p; std::vector<uint8_t*> dp, pp;
    for (auto& s : data) { d.emplace_back(new hx::Guarded<uint8_t>(bs)); std::copy(s.begin(), s.end(), d.back()->p()); dp.push_back(d.back()->p()); }
    for (unsigned i = 0; i < f.n_outputs; i++) { p.emplace_back(new hx::Guarded<uint8_t>(bs)); pp.push_back(want[i] ? p.back()->p() : nullptr); }
    Enc e; e.props.resize(f.n_outputs); for (auto& x : e.props) x.add(hx::R(9), 1); auto w = want;
    f.encode_blocks_vertical(dp, pp, e.props, w, bs); CHK(w == want);
    for (unsigned i = 0; i < f.n_outputs; i++) { CHECK(p[i]->intact(), "block encoding wrote outside of block %u", i); e.out.push_back(want[i] ? Str(p[i]->p(), p[i]->p() + bs) : Str()); }
    for (unsigned i = 0; i < f.n_data; i++) { CHECK(d[i]->intact() && std::equal(data[i].begin(), data[i].end(), (char*)d[i]->p()), "block encoding modified data %u", i); }
    return e;
}
template <typename T> bool dec_blocks(fec::FecCode<T>& f, const SV& data, const Enc& e, std::vector<int> miss, std::vector<bool> want, SV& res)
{
    size_t bs = data[0].size(); bool sys = f.type == fec::FecType::SYSTEMATIC; std::vector<std::unique_ptr<hx::Guarded<uint8_t>>> d, p; std::vector<uint8_t*> dp, pp;
    for (unsigned i = 0; i < f.n_data; i++) { d.emplace_back(new hx::Guarded<uint8_t>(bs)); if (sys && !miss[i]) std::copy(data[i].begin(), data[i].end(), d[i]->p()); dp.push_back((sys && !miss[i]) || want[i] ? d[i]->p() : nullptr); }
    for (unsigned i = 0; i < f.n_outputs; i++) { bool m = miss[sys ? f.n_data + i : i]; p.emplace_back(new hx::Guarded<uint8_t>(bs)); if (!m) std::copy(e.out[i].begin(), e.out[i].end(), p[i]->p()); pp.push_back(m ? nullptr : p[i]->p()); }
    auto props = e.props; bool ok = f.decode_blocks_vertical(dp, pp, props, miss, want, bs);
    res.clear();
    for (unsigned i = 0; i < f.n_data; i++) { CHECK(d[i]->intact(), "block decoding wrote outside of data %u", i); if (sys && !miss[i] ) CHECK(std::equal(data[i].begin(), data[i].end(), (char*)d[i]->p()), "block decoding changed available data %u", i); else if (!want[i]) for (size_t j = 0; j < bs; j++) CHK(d[i]->p()[j] == 0xA5); res.push_back(Str(d[i]->p(), d[i]->p() + bs)); }
    for (unsigned i = 0; i < f.n_outputs; i++) { CHK(p[i]->intact()); if (!miss[sys ? f.n_data + i : i]) CHECK(std::equal(e.out[i].begin(), e.out[i].end(), (char*)p[i]->p()), "block decoding modified parity %u", i); }
    return ok;
}
static void same(const Enc& a, const Enc& b, const std::vector<bool>* want, const char* w)
{
    auto ra = recs(a.props), rb = recs(b.props);
    for (size_t i = 0; i < a.out.size(); i++) { if (want && !(*want)[i]) continue; CHECK(a.out[i].size() == b.out[i].size(), "%s: fragment %zu has %zu bytes, expected %zu", w, i, b.out[i].size(), a.out[i].size()); for (size_t j = 0; j < a.out[i].size(); j++) CHECK(a.out[i][j] == b.out[i][j], "%s: fragment %zu differs at byte %zu", w, i, j); CHECK(ra[i] == rb[i], "%s: records of fragment %zu differ", w, i); }
}
static std::vector<size_t> lens(size_t pkt) { return {0, 1, pkt - 1, pkt, pkt + 1, 2 * pkt, 2 * pkt + 3, 5, hx::R(4 * pkt + 20)}; }
// mk: packet size -> codec; blocks/vector: the paths this codec supports
template <typename T, typename MK> void codec(MK mk, const char* name, bool blocks, bool vectors)
{
    for (size_t pkt : {(size_t)1, (size_t)2, (size_t)7, (size_t)8, (size_t)16, (size_t)19, (size_t)64}) {
        auto f = mk(pkt); auto g = mk(1 + hx::R(90)); unsigned k = f->n_data, m = f->n_parities; bool sys = f->type == fec::FecType::SYSTEMATIC;
        for (size_t words : lens(pkt)) {
            int mode = (int)hx::R(6); SV d = rdata(k, words * f->word_size, mode); if (f->word_size % 2 == 0 && hx::coin(3)) special16(d);
            std::vector<bool> want(f->n_outputs); for (size_t i = 0; i < want.size(); i++) want[i] = hx::coin(); auto miss = erase(k + m, m ? 1 + (int)hx::R(m) : 0); std::vector<bool> dw(k); for (unsigned i = 0; i < k; i++) dw[i] = hx::coin();
            hx::at("%s<%d bits> word_size=%u n_data=%u n_parities=%u packets of %zu and %zu words, %zu words, content %d, wanted=%s missing=%s", name, (int)sizeof(T) * 8, f->word_size, k, m, pkt, g->pkt_size, words, mode, hx::LST(want).c_str(), hx::LST(miss).c_str());
            Enc e = enc_streams<T>(*f, d, true); for (auto& o : e.out) CHECK(o.size() == words * f->word_size, "a fragment has %zu bytes", o.size());
            same(e, enc_streams<T>(*g, d, true), nullptr, "another packet size");
            if (vectors) same(e, enc_streams<T>(*f, d, false), nullptr, "symbol by symbol");
            same(e, enc_streams<T>(*f, d, true, &want), &want, "streams, some not wanted");
            if (vectors) same(e, enc_streams<T>(*f, d, false, &want), &want, "symbol by symbol, some not wanted");
            if (blocks) { same(e, enc_blocks<T>(*f, d, std::vector<bool>(f->n_outputs, true)), nullptr, "blocks"); same(e, enc_blocks<T>(*g, d, want), &want, "blocks, some not wanted"); }
            bool lost = !sys; for (unsigned i = 0; i < k && sys; i++) lost |= miss[i];
            if (!lost) continue;
            for (int v = 0; v < (vectors ? 3 : 2); v++) {
                SV r; auto& h = v == 1 ? *g : *f; CHECK(dec_streams<T>(h, d, e, miss, v != 2, r), "decoding fails (path %d)", v); for (unsigned i = 0; i < k; i++) CHECK(r[i] == d[i], "decoded data %u differs: %zu bytes, expected %zu (path %d)", i, r[i].size(), d[i].size(), v);
                CHK(dec_streams<T>(h, d, e, miss, v != 2, r, &dw)); for (unsigned i = 0; i < k; i++) CHECK(r[i] == (dw[i] ? d[i] : Str()), "decoded data %u differs when wanted=%s (path %d)", i, hx::LST(dw).c_str(), v);
            }
            if (blocks) { SV r; CHECK(dec_blocks<T>(*f, d, e, miss, std::vector<bool>(k, true), r), "block decoding fails"); CHECK(r == d, "block-decoded data differs"); CHK(dec_blocks<T>(*g, d, e, miss, dw, r)); for (unsigned i = 0; i < k; i++) if (dw[i] || (sys && !miss[i])) CHECK(r[i] == d[i], "block-decoded data %u differs", i); }
        }
    }
}
static std::pair<int, int> km() { return {1 + (int)hx::R(hx::coin(3) ? 14 : 5), 1 + (int)hx::R(hx::coin(3) ? 14 : 5)}; }
template <typename T> void fnt(unsigned ws, fec::FecType t)
{
    for (int r = 0; r < 5 * hx::scale(); r++) { auto p = km(); codec<T>([&](size_t pkt) { return std::make_unique<fec::RsFnt<T>>(t, ws, p.first, p.second, pkt); }, t == fec::FecType::SYSTEMATIC ? "RsFnt systematic" : "RsFnt", true, t != fec::FecType::SYSTEMATIC); }
}
SEC(fnt16_1) { fnt<uint16_t>(1, fec::FecType::NON_SYSTEMATIC); fnt<uint16_t>(1, fec::FecType::SYSTEMATIC); }
SEC(fnt32_1) { fnt<uint32_t>(1, fec::FecType::NON_SYSTEMATIC); fnt<uint32_t>(1, fec::FecType::SYSTEMATIC); }
SEC(fnt32_2) { fnt<uint32_t>(2, fec::FecType::NON_SYSTEMATIC); fnt<uint32_t>(2, fec::FecType::SYSTEMATIC); }
SEC(fnt64) { fnt<uint64_t>(1, fec::FecType::NON_SYSTEMATIC); fnt<uint64_t>(2, fec::FecType::NON_SYSTEMATIC); fnt<uint64_t>(2, fec::FecType::SYSTEMATIC); }
template <typename T> void nf4(unsigned ws) { for (int r = 0; r < 4 * hx::scale(); r++) { auto p = km(); codec<T>([&](size_t pkt) { return std::make_unique<fec::RsNf4<T>>(ws, p.first, p.second, pkt); }, "RsNf4", false, true); } }
SEC(nf4_32) { nf4<uint32_t>(2); }
SEC(nf4_64) { nf4<uint64_t>(2); nf4<uint64_t>(4); }
SEC(nf4_128) { nf4<__uint128_t>(4); nf4<__uint128_t>(8); }
HX_MAIN
