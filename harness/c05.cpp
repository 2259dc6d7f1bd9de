// C05: any n_data fragments recover the data, all codecs but the FNT one.
#include "streams.h"
template <typename T> void rt(fec::FecCode<T>& f, const char* name, bool vertical)
{
    unsigned k = f.n_data, m = f.n_parities; unsigned tot = k + m; bool sys = f.type == fec::FecType::SYSTEMATIC;
    CHK(f.n_outputs == (sys ? m : tot));
    for (int r = 0; r < 4; r++) {
        size_t words = r == 0 ? 1 : hx::R(vertical ? 40 : 14); int mode = (int)hx::R(6); int lost = r == 1 ? (int)hx::R(m + 1) : (int)m; auto miss = erase(tot, lost);
        SV d = rdata(k, words * f.word_size, mode); if (f.word_size % 2 == 0 && hx::coin(3)) special16(d);
        hx::at("%s<%d bits> word_size=%u n_data=%u n_parities=%u %s, %zu words, content %d, missing=%s", name, (int)sizeof(T) * 8, f.word_size, k, m, vertical ? "packets" : "symbols", words, mode, hx::LST(miss, 90).c_str());
        Enc e = enc_streams(f, d, vertical); for (unsigned i = 0; i < f.n_outputs; i++) CHECK(e.out[i].size() == d[0].size(), "fragment %u has %zu bytes", i, e.out[i].size());
        SV res; CHECK(dec_streams(f, d, e, miss, vertical, res), "decoding fails");
        bool clear = sys; for (unsigned i = 0; i < k; i++) clear = clear && !miss[i];
        if (!clear) for (unsigned i = 0; i < k; i++) if (res[i] != d[i]) { size_t j = 0; while (j < res[i].size() && res[i][j] == d[i][j]) j++; hx::fail("data fragment %u: got %zu bytes, expected %zu, first difference at %zu", i, res[i].size(), d[i].size(), j); }
        int ex = 1 + (int)hx::R(k); auto bad = erase(tot, (int)m + ex); SV none;
        hx::at("%s<%d bits> word_size=%u n_data=%u n_parities=%u %s missing=%s", name, (int)sizeof(T) * 8, f.word_size, k, m, vertical ? "packets" : "symbols", hx::LST(bad, 90).c_str());
        CHECK(!dec_streams(f, d, e, bad, vertical, none), "decoding from %d fragments reports success", (int)k - ex);
    }
}
// every erasure pattern
template <typename T> void pat(fec::FecCode<T>& f, const char* name, bool vertical)
{
    unsigned k = f.n_data, m = f.n_parities, tot = k + m; bool sys = f.type == fec::FecType::SYSTEMATIC;
    SV d = rdata(k, 3 * f.word_size, 0); Enc e = enc_streams(f, d, vertical);
    for (unsigned x = 0; x < 1u << tot; x++) { if ((unsigned)__builtin_popcount(x) != m) continue; std::vector<int> miss(tot); for (unsigned i = 0; i < tot; i++) miss[i] = x >> i & 1;
        if (sys && !(x & ((1u << k) - 1))) continue;
        hx::at("%s<%d bits> word_size=%u n_data=%u n_parities=%u %s missing=%s", name, (int)sizeof(T) * 8, f.word_size, k, m, vertical ? "packets" : "symbols", hx::LST(miss).c_str());
        SV res; CHECK(dec_streams(f, d, e, miss, vertical, res), "decoding fails"); CHECK(res == d, "decoded data differs"); }
}
static void kms(std::vector<std::pair<int, int>>& v, int kmax, int mmax, int n) { for (int i = 0; i < n * hx::scale(); i++) v.push_back({1 + (int)hx::R(hx::coin(3) ? kmax : 6), 1 + (int)hx::R(hx::coin(3) ? mmax : 5)}); }
#define FOR(kmax, mmax, n) std::vector<std::pair<int, int>> v_{{1, 1}, {2, 1}, {1, 3}, {3, 3}, {4, 4}, {5, 2}}; kms(v_, kmax, mmax, n); for (auto& km : v_)
template <typename T> void matrix(std::vector<unsigned> wss, int n)
{
    for (unsigned ws : wss) for (auto t : {fec::RsMatrixType::VANDERMONDE, fec::RsMatrixType::CAUCHY}) { const char* nm = t == fec::RsMatrixType::CAUCHY ? "RsGf2n Cauchy" : "RsGf2n Vandermonde";
        FOR(ws == 1 ? 30 : 12, ws == 1 ? 20 : 8, n) { hx::at("%s<%d bits> word_size=%u n_data=%d n_parities=%d", nm, (int)sizeof(T) * 8, ws, km.first, km.second); fec::RsGf2n<T> f(ws, km.first, km.second, t); rt<T>(f, nm, false); if (km.first + km.second <= 8) pat<T>(f, nm, false); } }
}
SEC(matrix32) { matrix<uint32_t>({1, 2, 4}, 12); }
SEC(matrix64) { matrix<uint64_t>({1, 2, 4, 8}, 5); }
SEC(matrix128) { matrix<__uint128_t>({1, 4, 8, 16}, 3); }
SEC(matrixbig) { for (auto t : {fec::RsMatrixType::VANDERMONDE, fec::RsMatrixType::CAUCHY}) { fec::RsGf2n<uint32_t> f(1, 100, 60, t); rt<uint32_t>(f, t == fec::RsMatrixType::CAUCHY ? "RsGf2n Cauchy" : "RsGf2n Vandermonde", false); } }
template <typename T> void gffft(std::vector<unsigned> wss, int n)
{
    for (unsigned ws : wss) { FOR(ws == 1 ? 40 : 20, ws == 1 ? 60 : 20, n) { if (ws == 1 && (km.first + km.second > 255 || 2 * km.first > 255)) continue; hx::at("RsGf2nFft<%d bits> word_size=%u n_data=%d n_parities=%d", (int)sizeof(T) * 8, ws, km.first, km.second); fec::RsGf2nFft<T> f(ws, km.first, km.second); rt<T>(f, "RsGf2nFft", false); if (km.first + km.second <= 8) pat<T>(f, "RsGf2nFft", false); } }
}
SEC(gf2nfft32) { gffft<uint32_t>({1, 2, 4}, 10); }
SEC(gf2nfft64) { gffft<uint64_t>({1, 4, 8}, 5); }
SEC(gf2nfft128) { gffft<__uint128_t>({2, 8, 16}, 3); }
template <typename T> void addfft(std::vector<unsigned> wss, int n)
{
    for (unsigned ws : wss) { FOR(20, 20, n) { hx::at("RsGf2nFftAdd<%d bits> word_size=%u n_data=%d n_parities=%d", (int)sizeof(T) * 8, ws, km.first, km.second); fec::RsGf2nFftAdd<T> f(ws, km.first, km.second); rt<T>(f, "RsGf2nFftAdd", false); if (km.first + km.second <= 7) pat<T>(f, "RsGf2nFftAdd", false); } }
}
SEC(add32) { addfft<uint32_t>({1, 2, 4}, 8); }
SEC(add64) { addfft<uint64_t>({1, 4, 8}, 4); }
SEC(add128) { addfft<__uint128_t>({2, 8, 16}, 2); }
template <typename T> void gfp(std::vector<unsigned> wss, int n)
{
    for (unsigned ws : wss) { FOR(ws == 1 ? 60 : 30, ws == 1 ? 90 : 40, n) { if (ws == 1 && km.first + km.second > 256) continue; hx::at("RsGfpFft<%d bits> word_size=%u n_data=%d n_parities=%d", (int)sizeof(T) * 8, ws, km.first, km.second); fec::RsGfpFft<T> f(ws, km.first, km.second); rt<T>(f, "RsGfpFft", false); if (km.first + km.second <= 8) pat<T>(f, "RsGfpFft", false); } }
}
SEC(gfp16) { gfp<uint16_t>({1}, 12); }
SEC(gfp32) { gfp<uint32_t>({1, 2}, 8); }
SEC(gfp64) { gfp<uint64_t>({1, 2, 4}, 6); }
template <typename T> void nf4(std::vector<unsigned> wss, int n)
{
    for (unsigned ws : wss) { FOR(20, 30, n) { size_t pkt = (size_t[]){1, 3, 8, 13, 16}[hx::R(5)]; hx::at("RsNf4<%d bits> word_size=%u n_data=%d n_parities=%d packet %zu", (int)sizeof(T) * 8, ws, km.first, km.second, pkt); fec::RsNf4<T> f(ws, km.first, km.second, pkt); for (bool v : {false, true}) { rt<T>(f, "RsNf4", v); if (km.first + km.second <= 7) pat<T>(f, "RsNf4", v); } } }
}
SEC(nf4_32) { nf4<uint32_t>({2}, 12); }
SEC(nf4_64) { nf4<uint64_t>({2, 4}, 10); }
SEC(nf4_128) { nf4<__uint128_t>({2, 4, 8}, 2); }
HX_MAIN
