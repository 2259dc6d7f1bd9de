// Allocation for vectorised processing: alignment, room, ownership, refusal.
#include "quadiron.h"
#include "simd/allocator.h"
#include "simd/simd.h"
#include <new>
#include "qdv.h"
using namespace quadiron;
typedef unsigned __int128 u128;

#ifdef QUADIRON_USE_SIMD
static constexpr size_t ALIGN = sizeof(simd::VecType);
#else
static constexpr size_t ALIGN = 1;
#endif
static bool aligned(const void* p, size_t elem)
{
    const size_t a = ALIGN > elem ? ALIGN : elem;
    return reinterpret_cast<uintptr_t>(p) % a == 0;
}
template <typename T>
void c_alloc()
{
    const uint64_t n = qdv_any<uint64_t>("n"), k = qdv_any<uint64_t>("k");
    const T x = qdv_any<T>("x");
    simd::AlignedAllocator<T> al;
    T* p = nullptr;
    bool thrown = false;
    try {
        p = al.allocate(n);
    } catch (const std::bad_alloc&) {
        thrown = true;
    }
    const u128 bytes = u128(n) * sizeof(T);
    if (thrown) {
        __qdv_assert(bytes + 64 > (u128(1) << 63), "only impossible sizes are refused");
        return;
    }
    __qdv_assert(bytes < (u128(1) << 64), "an impossible size is refused");
    __qdv_assert(p != nullptr, "memory");
    __qdv_assert(aligned(p, sizeof(T)), "aligned for the widest register");
    __qdv_assert(__qdv_offset(p) + uint64_t(bytes) <= __qdv_alloc_bytes(p), "room for every element");
    if (k < n)
        p[k] = x;
    __qdv_assert(!__qdv_freed(p), "live until released");
    al.deallocate(p, n);
    __qdv_assert(__qdv_freed(p), "released exactly once, from its start");
}
// two live buffers: neither disturbs the other
template <typename T>
void c_two()
{
    const uint64_t n = qdv_any<uint64_t>("n"), m = qdv_any<uint64_t>("m"), k = qdv_any<uint64_t>("k"), j = qdv_any<uint64_t>("j");
    __qdv_assume(n < (1ull << 32) && m < (1ull << 32) && k < n && j < m);
    const T x = qdv_any<T>("x"), y = qdv_any<T>("y");
    simd::AlignedAllocator<T> al;
    simd::AlignedAllocator<T> other(al);
    T* p = al.allocate(n);
    T* q = other.allocate(m);
    __qdv_assert(!__qdv_same_object(p, q), "no overlap with a live buffer");
    p[k] = x;
    q[j] = y;
    __qdv_assert(p[k] == x && q[j] == y, "writes stay in their buffer");
    // a stateless allocator releases what an equal one obtained
    const bool first = qdv_any<bool>("first");
    if (first) {
        other.deallocate(p, n);
        __qdv_assert(__qdv_freed(p) && !__qdv_freed(q) && q[j] == y, "the other buffer lives on");
        al.deallocate(q, m);
    } else {
        al.deallocate(q, m);
        __qdv_assert(__qdv_freed(q) && !__qdv_freed(p) && p[k] == x, "the other buffer lives on");
        other.deallocate(p, n);
    }
    __qdv_assert(__qdv_freed(p) && __qdv_freed(q), "both released");
}
template <typename T>
void c_null()
{
    simd::AlignedAllocator<T> al;
    al.deallocate(nullptr, qdv_any<uint64_t>("n"));
    __qdv_assert(true, "releasing nothing is allowed");
}
template <typename T>
void c_is_aligned()
{
    const uint64_t a = qdv_any<uint64_t>("a");
    const bool r = simd::addr_is_aligned(reinterpret_cast<const T*>(a));
    __qdv_assert(!r || a % ALIGN == 0, "a claimed alignment is real");
    __qdv_assert(r || a % ALIGN != 0, "an aligned address is recognised");
}
template <typename T>
void c_equal()
{
    simd::AlignedAllocator<T> a;
    simd::AlignedAllocator<uint8_t> b;
    __qdv_assert(a == b && !(a != b), "allocators are interchangeable");
    typedef typename std::allocator_traits<simd::AlignedAllocator<T>>::size_type size;
    const size m = a.max_size();
    __qdv_assert(u128(m) * sizeof(T) + ALIGN < (u128(1) << 64), "the largest size is representable");
}
#define ALL(N, T) \
    CONTRACT(alloc_##N) { c_alloc<T>(); } \
    CONTRACT(two_##N) { c_two<T>(); } \
    CONTRACT(null_##N) { c_null<T>(); } \
    CONTRACT(is_aligned_##N) { c_is_aligned<T>(); } \
    CONTRACT(equal_##N) { c_equal<T>(); }
ALL(u8, uint8_t)
ALL(u16, uint16_t)
ALL(u32, uint32_t)
ALL(u64, uint64_t)
ALL(u128, unsigned __int128)
