// Contracts of the SIMD lane arithmetic modulo a Fermat prime (simd_fnt.h).
#ifndef QDV_LANES_H
#define QDV_LANES_H
#ifdef QUADIRON_USE_SIMD
template <typename T>
struct Lane {
    using V = quadiron::simd::VecType;
    static const unsigned N = sizeof(V) / sizeof(T);
    static const uint32_t q = sizeof(T) == 2 ? 257 : 65537;
    T *x, *y, *r;
    V vx, vy;
    Lane()
    {
        x = qdv_array<T>(N, "x");
        y = qdv_array<T>(N, "y");
        r = qdv_array<T>(N, "r");
        vx = *reinterpret_cast<V*>(x);
        vy = *reinterpret_cast<V*>(y);
    }
    // what the other lanes hold does not matter
    bool pre(unsigned i) const { return x[i] < q && y[i] < q; }
    void set(V v) { *reinterpret_cast<V*>(r) = v; }
};
template <typename T>
void lane_add()
{
    Lane<T> l;
    l.set(quadiron::simd::mod_add<T>(l.vx, l.vy));
    for (unsigned i = 0; i < l.N; ++i)
        __qdv_assert(!l.pre(i) || l.r[i] == T((uint32_t(l.x[i]) + l.y[i]) % l.q), "mod_add");
}
template <typename T>
void lane_sub()
{
    Lane<T> l;
    l.set(quadiron::simd::mod_sub<T>(l.vx, l.vy));
    for (unsigned i = 0; i < l.N; ++i)
        __qdv_assert(!l.pre(i) || l.r[i] == T((uint32_t(l.x[i]) + l.q - l.y[i]) % l.q), "mod_sub");
}
template <typename T>
void lane_neg()
{
    Lane<T> l;
    l.set(quadiron::simd::mod_neg<T>(l.vx));
    for (unsigned i = 0; i < l.N; ++i)
        __qdv_assert(l.x[i] >= l.q || l.r[i] == T((l.q - l.x[i]) % l.q), "mod_neg");
}
template <typename T>
void lane_mul(bool safe)
{
    Lane<T> l;
    l.set(safe ? quadiron::simd::mod_mul_safe<T>(l.vx, l.vy) : quadiron::simd::mod_mul<T>(l.vx, l.vy));
    for (unsigned i = 0; i < l.N; ++i) {
        bool pre = l.pre(i) && (safe || l.x[i] != l.q - 1 || l.y[i] != l.q - 1);
        if (sizeof(T) == 4) {
            const uint64_t p = uint64_t(l.x[i]) * l.y[i], hi = p >> 16, lo = p & 0xffff;
            __qdv_lemma_mul_le(l.x[i], l.y[i], 65536, 65535);
            __qdv_lemma_mul_le(l.x[i], l.y[i], 65535, 65536);
            __qdv_lemma_divmod(p, 65537, hi - (lo < hi), lo < hi ? lo + 65537 - hi : lo - hi);
            __qdv_assert(!pre || (l.x[i] == 65536 && l.y[i] == 65536) || p < 0x100000000, "the product fits 32 bits");
        }
        if (sizeof(T) == 2) {
            const uint64_t p = uint64_t(l.x[i]) * l.y[i], hi = p >> 8, lo = p & 0xff;
            __qdv_lemma_mul_le(l.x[i], l.y[i], 256, 255);
            __qdv_lemma_mul_le(l.x[i], l.y[i], 255, 256);
            __qdv_lemma_divmod(p, 257, hi - (lo < hi), lo < hi ? lo + 257 - hi : lo - hi);
            __qdv_assert(!pre || (l.x[i] == 256 && l.y[i] == 256) || p < 65536, "the product fits 16 bits");
        }
        __qdv_assert(!pre || l.r[i] == T(uint64_t(l.x[i]) * l.y[i] % l.q), safe ? "mod_mul_safe" : "mod_mul");
    }
}
CONTRACT(lane_add16) { lane_add<uint16_t>(); }
CONTRACT(lane_add32) { lane_add<uint32_t>(); }
CONTRACT(lane_sub16) { lane_sub<uint16_t>(); }
CONTRACT(lane_sub32) { lane_sub<uint32_t>(); }
CONTRACT(lane_neg16) { lane_neg<uint16_t>(); }
CONTRACT(lane_neg32) { lane_neg<uint32_t>(); }
CONTRACT(lane_mul16) { lane_mul<uint16_t>(false); }
CONTRACT(lane_mul32) { lane_mul<uint32_t>(false); }
CONTRACT(lane_mulsafe16) { lane_mul<uint16_t>(true); }
CONTRACT(lane_mulsafe32) { lane_mul<uint32_t>(true); }
#endif
#endif
