// Codecs: encode and decode on buffers of any packet length
#ifndef QDV_CODEC_H
#define QDV_CODEC_H
#include "quadiron.h"
#include "qdv.h"
#include "bufs.h"
using namespace quadiron;

inline uint64_t power(uint64_t b, uint64_t e, uint64_t p)
{
    uint64_t r = 1 % p;
    for (; e; e--)
        r = (unsigned __int128)r * b % p;
    return r;
}
// inverse modulo a prime
inline uint64_t inverse(uint64_t b, uint64_t p)
{
    uint64_t r = 1, e = p - 2;
    for (b %= p; e; e >>= 1) {
        if (e & 1)
            r = (unsigned __int128)r * b % p;
        b = (unsigned __int128)b * b % p;
    }
    return r;
}
inline size_t any_pkt()
{
    const size_t pkt = qdv_any<uint64_t>("pkt");
    __qdv_assume(pkt > 0 && pkt < (1ull << 30));
    return pkt;
}
// subset number s of k elements out of n (as a bit mask), or 0
inline unsigned subset(unsigned n, unsigned k, unsigned s)
{
    for (unsigned b = 0; b < (1u << n); b++) {
        unsigned c = 0;
        for (unsigned i = 0; i < n; i++)
            c += b >> i & 1;
        if (c == k && s-- == 0)
            return b;
    }
    return 0;
}
#endif
