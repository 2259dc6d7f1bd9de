#include "blocks.h"
// type, word size, fragments, words per packet, largest block, fragments present
#define E(t, w, k, m, p, b) CONTRACT(enc_##t##_w##w##_##k##_##m##_p##p##_b##b) { c_enc_blocks(#t[0] == 's', w, k, m, p, b); }
E(s, 1, 2, 2, 4, 13) E(n, 1, 2, 1, 4, 9) E(n, 2, 2, 1, 2, 13) E(s, 2, 3, 2, 3, 14) E(n, 1, 3, 1, 1, 4) E(s, 4, 2, 1, 2, 17) E(n, 4, 1, 2, 1, 9) E(s, 2, 1, 1, 1, 5)
#define D(t, w, k, m, p, b, f) CONTRACT(dec_##t##_w##w##_##k##_##m##_p##p##_b##b##_##f) { c_dec_blocks(#t[0] == 's', w, k, m, p, b, f); }
#define ALL(t, w, p, b) D(t, w, 2, 2, p, b, 0) D(t, w, 2, 2, p, b, 1) D(t, w, 2, 2, p, b, 2) D(t, w, 2, 2, p, b, 3) D(t, w, 2, 2, p, b, 4) D(t, w, 2, 2, p, b, 5) D(t, w, 2, 2, p, b, 6) D(t, w, 2, 2, p, b, 7) \
                        D(t, w, 2, 2, p, b, 8) D(t, w, 2, 2, p, b, 9) D(t, w, 2, 2, p, b, 10) D(t, w, 2, 2, p, b, 11) D(t, w, 2, 2, p, b, 12) D(t, w, 2, 2, p, b, 13) D(t, w, 2, 2, p, b, 14) D(t, w, 2, 2, p, b, 15)
ALL(s, 1, 4, 9) ALL(n, 2, 2, 9)
D(s, 2, 3, 2, 3, 14, 13) D(s, 2, 3, 2, 3, 14, 28) D(n, 1, 3, 1, 1, 4, 11) D(n, 1, 3, 1, 1, 4, 14) D(s, 4, 2, 1, 2, 17, 6) D(n, 4, 1, 2, 1, 9, 4)
// streams: vertical or horizontal, type, word size, fragments, words per packet, most words, fragments present
#define SE(h, t, w, k, m, p, b) CONTRACT(stream_enc_##h##_##t##_w##w##_##k##_##m##_p##p##_b##b) { c_enc_streams(#h[0] == 'v', #t[0] == 's', w, k, m, p, b); }
#define SD(h, t, w, k, m, p, b, f) CONTRACT(stream_dec_##h##_##t##_w##w##_##k##_##m##_p##p##_b##b##_##f) { c_dec_streams(#h[0] == 'v', #t[0] == 's', w, k, m, p, b, f); }
SE(v, s, 1, 2, 2, 4, 13) SE(v, n, 2, 2, 1, 2, 7) SE(v, n, 4, 1, 2, 1, 3) SE(v, s, 2, 3, 2, 3, 10)
SE(h, s, 1, 2, 2, 4, 5) SE(h, n, 2, 2, 1, 2, 5) SE(h, n, 4, 1, 2, 1, 3) SE(h, s, 2, 3, 2, 3, 4)
#define SALL(h, t, w, p, b) SD(h, t, w, 2, 1, p, b, 0) SD(h, t, w, 2, 1, p, b, 1) SD(h, t, w, 2, 1, p, b, 2) SD(h, t, w, 2, 1, p, b, 3) SD(h, t, w, 2, 1, p, b, 4) SD(h, t, w, 2, 1, p, b, 5) SD(h, t, w, 2, 1, p, b, 6) SD(h, t, w, 2, 1, p, b, 7)
SALL(v, s, 1, 4, 9) SALL(v, n, 2, 2, 5) SALL(h, s, 2, 4, 4) SALL(h, n, 1, 2, 4)
SD(v, s, 2, 3, 2, 3, 10, 26) SD(v, n, 4, 2, 2, 2, 5, 12) SD(h, s, 2, 3, 2, 3, 4, 21) SD(h, n, 4, 2, 2, 2, 3, 10)
