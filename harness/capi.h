// A set of fragments handled through the public C API, in buffers of exactly
// the documented sizes between guard zones.
#pragma once
#include "common.h"
#include "quadiron.h"
#include "quadiron_c.h"
#include <arpa/inet.h>
typedef std::vector<uint8_t> Bytes;
typedef std::vector<Bytes> Frags; // header + block, per fragment
struct Cfg { int ws, k, m, sys; size_t bs; };
static inline std::string D(const Cfg& c) { char b[200]; snprintf(b, sizeof b, "word_size=%d n_data=%d n_parities=%d systematic=%d block_size=%zu", c.ws, c.k, c.m, c.sys, c.bs); return b; }
struct Inst {
    QuadironFnt32* p; explicit Inst(const Cfg& c) { p = quadiron_fnt32_new(c.ws, c.k, c.m, c.sys); CHECK(p != nullptr, "quadiron_fnt32_new(%s) returns NULL", D(c).c_str()); }
    ~Inst() { quadiron_fnt32_delete(p); } Inst(const Inst&) = delete;
};
// data symbols such that special symbols appear: mode
//  0 random, 1 all ones, 2 zero, 3 sparse, 4 constant 0x80/0xff words,
//  5 every column sums to the special value (fragment 0 of non-systematic), 6 one non-zero word
static inline uint32_t gw(const uint8_t* p, int ws) { return ws == 1 ? p[0] : (uint32_t)p[0] | p[1] << 8; }
static inline void sw(uint8_t* p, int ws, uint32_t v) { p[0] = (uint8_t)v; if (ws == 2) p[1] = (uint8_t)(v >> 8); }
static inline Frags gen(const Cfg& c, int mode)
{
    Frags d(c.k, Bytes(c.bs)); uint32_t F = c.ws == 1 ? 256 : 65536;
    for (auto& b : d) for (auto& x : b) x = mode == 0 ? hx::R() : mode == 1 ? 255 : mode == 3 ? (hx::R(3) ? 0 : hx::R()) : mode == 4 ? (hx::coin() ? 0x80 : 0xff) : mode == 5 ? hx::R() : 0;
    size_t n = c.bs / c.ws;
    if (mode == 5) for (size_t i = 0; i < n; i++) { if (hx::R(3) == 0) continue; uint32_t s = 0; int v = (int)hx::R(c.k); for (int j = 0; j < c.k; j++) if (j != v) s = (s + gw(&d[j][i * c.ws], c.ws)) % (F + 1); uint32_t w = (F + F + 1 - s) % (F + 1); if (w == F) w = 0; sw(&d[v][i * c.ws], c.ws, w); }
    if (mode == 6 && n) sw(&d[hx::R(c.k)][hx::R(n) * c.ws], c.ws, 1 + (uint32_t)hx::R(F - 1));
    return d;
}
struct Set {
    Cfg c; int md; std::vector<std::unique_ptr<hx::Guarded<uint8_t>>> f; // k + m fragments
    explicit Set(const Cfg& c_, QuadironFnt32* q, size_t skew = 0) : c(c_)
    { md = quadiron_fnt32_get_metadata_size(q, c.bs); CHECK(md >= 64 && md % 4 == 0, "metadata size %d", md); for (int i = 0; i < c.k + c.m; i++) { f.emplace_back(new hx::Guarded<uint8_t>(c.bs + md, 4, skew * 4)); memset(f[i]->p(), 0x5A, c.bs + md); } }
    uint8_t* blk(int i) { return f[i]->p() + md; }
    Bytes get(int i) { return Bytes(f[i]->p(), f[i]->p() + c.bs + md); }
    Bytes block(int i) { return Bytes(blk(i), blk(i) + c.bs); }
    void put(int i, const Bytes& b) { std::copy(b.begin(), b.end(), f[i]->p()); }
    void data(const Frags& d) { for (int i = 0; i < c.k; i++) std::copy(d[i].begin(), d[i].end(), blk(i)); }
    void junk(int i) { for (size_t j = 0; j < c.bs + md; j++) f[i]->p()[j] = (uint8_t)hx::R(); }
    Frags all() { Frags r; for (int i = 0; i < c.k + c.m; i++) r.push_back(get(i)); return r; }
    void guards(const char* w) { for (int i = 0; i < c.k + c.m; i++) CHECK(f[i]->intact(), "%s: write outside of fragment %d", w, i); }
    int nout() { return c.sys ? c.m : c.k + c.m; }
    // null: pass null for the entries that may be
    int encode(QuadironFnt32* q, std::vector<int> want, bool null)
    {
        std::vector<uint8_t*> dp, pp; for (int i = 0; i < c.k; i++) dp.push_back(f[i]->p());
        for (int i = 0; i < c.m; i++) pp.push_back(null && !want[c.sys ? i : c.k + i] ? nullptr : f[c.k + i]->p());
        auto w0 = want; auto d0 = dp, p0 = pp; dp.shrink_to_fit(); pp.shrink_to_fit(); want.shrink_to_fit();
        int rc = quadiron_fnt32_encode(q, dp.data(), pp.data(), want.data(), c.bs);
        CHECK(want == w0 && dp == d0 && pp == p0, "encode modified its argument arrays"); guards("encode"); return rc;
    }
    int decode(QuadironFnt32* q, std::vector<int> miss, bool null)
    {
        std::vector<uint8_t*> dp, pp; for (int i = 0; i < c.k; i++) dp.push_back(f[i]->p());
        for (int i = 0; i < c.m; i++) pp.push_back(null && miss[c.k + i] ? nullptr : f[c.k + i]->p());
        auto m0 = miss; auto d0 = dp, p0 = pp; dp.shrink_to_fit(); pp.shrink_to_fit(); miss.shrink_to_fit();
        int rc = quadiron_fnt32_decode(q, dp.data(), pp.data(), miss.data(), c.bs);
        CHECK(miss == m0 && dp == d0 && pp == p0, "decode modified its argument arrays"); guards("decode"); return rc;
    }
    int reconstruct(QuadironFnt32* q, std::vector<int> miss, int dst, bool null)
    {
        std::vector<uint8_t*> dp, pp;
        for (int i = 0; i < c.k; i++) dp.push_back(null && miss[i] && i != dst ? nullptr : f[i]->p());
        for (int i = 0; i < c.m; i++) pp.push_back(null && miss[c.k + i] && c.k + i != dst ? nullptr : f[c.k + i]->p());
        auto m0 = miss; auto d0 = dp, p0 = pp; dp.shrink_to_fit(); pp.shrink_to_fit(); miss.shrink_to_fit();
        int rc = quadiron_fnt32_reconstruct(q, dp.data(), pp.data(), miss.data(), (unsigned)dst, c.bs);
        CHECK(miss == m0 && dp == d0 && pp == p0, "reconstruct modified its argument arrays"); guards("reconstruct"); return rc;
    }
    bool header_ok(int i) { uint32_t* h = (uint32_t*)f[i]->p(); return ntohl(h[0]) == 0x464E5431 && ntohl(h[1]) <= (uint32_t)(md / 4 - 2); }
};
// parameters: small ones exhaustively, then wide ones; p = round number
static inline Cfg rcfg(size_t maxbs)
{
    Cfg c; c.ws = 1 + (int)hx::R(2); c.sys = (int)hx::R(2); 
    switch (hx::R(5)) {
    case 0: c.k = 1 + (int)hx::R(4); c.m = (int)hx::R(5); break;
    case 1: c.k = 1 + (int)hx::R(16); c.m = 1 + (int)hx::R(3); break;
    case 2: c.k = 1 << hx::R(5); c.m = hx::coin() ? c.k : (int)hx::R(9); break;
    case 3: c.k = 1 + (int)hx::R(40); c.m = (int)hx::R(40); break;
    default: c.k = 1 + (int)hx::R(6); c.m = 1 + (int)hx::R(10); break;
    }
    size_t words; switch (hx::R(5)) { case 0: words = hx::R(5); break; case 1: words = hx::R(70); break; case 2: words = 1016 + hx::R(17); break; case 3: words = 2040 + hx::R(17); break; default: words = hx::R(maxbs / 2); }
    if (c.k + c.m > 30) words %= 1200;
    c.bs = words * c.ws; return c;
}
static inline std::vector<int> erase(int tot, int cnt) { std::vector<int> m(tot, 0), p(tot); for (int i = 0; i < tot; i++) p[i] = i; std::shuffle(p.begin(), p.end(), hx::rng()); for (int i = 0; i < cnt; i++) m[p[i]] = 1; return m; }
// does some fragment hold more special symbols than its header can?
// oracle: fragments by polynomial evaluation / interpolation, mod p = 257 or 65537
struct Oracle {
    uint32_t p, F; int n; uint64_t r; 
    explicit Oracle(const Cfg& c) { F = c.ws == 1 ? 256 : 65536; p = F + 1; n = 1; while (n < c.k + c.m) n *= 2; r = om::powm(3, F / n, p); }
    // rows of the encoding matrix: fragment j = sum_i M[j][i] d_i
    std::vector<std::vector<uint32_t>> matrix(const Cfg& c) const
    {
        int tot = c.k + c.m; std::vector<std::vector<uint32_t>> V(tot, std::vector<uint32_t>(c.k));
        for (int j = 0; j < tot; j++) { uint64_t x = om::powm(r, j, p), e = 1; for (int i = 0; i < c.k; i++) { V[j][i] = (uint32_t)e; e = e * x % p; } }
        if (!c.sys) return V;
        // systematic: V * inverse of its first k rows
        int k = c.k; std::vector<std::vector<uint64_t>> A(k, std::vector<uint64_t>(2 * k, 0));
        for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) A[i][j] = V[i][j]; A[i][k + i] = 1; }
        for (int i = 0; i < k; i++) {
            int q = i; while (!A[q][i]) q++; std::swap(A[i], A[q]); uint64_t iv = om::powm(A[i][i], p - 2, p); for (auto& x : A[i]) x = x * iv % p;
            for (int z = 0; z < k; z++) if (z != i && A[z][i]) { uint64_t f = p - A[z][i]; for (int j = 0; j < 2 * k; j++) A[z][j] = (A[z][j] + f * A[i][j]) % p; }
        }
        std::vector<std::vector<uint32_t>> W(tot, std::vector<uint32_t>(k));
        for (int j = 0; j < tot; j++) for (int i = 0; i < k; i++) { uint64_t s = 0; for (int z = 0; z < k; z++) s += (uint64_t)V[j][z] * A[z][k + i] % p; W[j][i] = (uint32_t)(s % p); }
        return W;
    }
    // expected header+block for fragment j; false when the header is too small
    bool fragment(const Cfg& c, const std::vector<uint32_t>& row, const Frags& d, int md, bool mark, Bytes& out) const
    {
        out.assign(md + c.bs, 0); std::vector<uint32_t> loc; size_t n_w = c.bs / c.ws;
        for (size_t t = 0; t < n_w; t++) { uint64_t s = 0; for (int i = 0; i < c.k; i++) s += (uint64_t)row[i] * gw(&d[i][t * c.ws], c.ws); s %= p; if (s == F) { loc.push_back((uint32_t)t); s = 0; } sw(&out[md + t * c.ws], c.ws, (uint32_t)s); }
        if (!mark) loc.clear();
        if (loc.size() + 2 > (size_t)md / 4) return false;
        uint32_t* h = (uint32_t*)out.data(); h[0] = htonl(0x464E5431); h[1] = htonl((uint32_t)loc.size()); for (size_t i = 0; i < loc.size(); i++) h[2 + i] = htonl(loc[i]);
        return true;
    }
    bool all(const Cfg& c, const Frags& d, int md, Frags& out) const
    {
        auto M = matrix(c); out.assign(c.k + c.m, Bytes()); bool ok = true;
        for (int j = 0; j < c.k + c.m; j++) ok = fragment(c, M[j], d, md, !(c.sys && j < c.k), out[j]) && ok;
        return ok;
    }
};
