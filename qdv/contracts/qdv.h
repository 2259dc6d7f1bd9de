// Vocabulary of the contracts.  A contract is a function `extern "C" void contract_NAME()`:
// it builds an arbitrary pre-state that satisfies the precondition, calls the real function
// and asserts the postcondition, for every value of its ghost variables.
#ifndef QDV_H
#define QDV_H
#include <cstddef>
#include <cstdint>
extern "C" {
bool __qdv_bool(const char* name);
uint8_t __qdv_u8(const char* name);
uint16_t __qdv_u16(const char* name);
uint32_t __qdv_u32(const char* name);
uint64_t __qdv_u64(const char* name);
unsigned __int128 __qdv_u128(const char* name);
void __qdv_assume(bool);
void __qdv_assert(bool, const char* what);
// an array of `bytes` bytes of arbitrary elements of `elem` bytes
void* __qdv_array(size_t bytes, unsigned elem, unsigned align, const char* name);
// precondition: every element of the array is below the bound
void __qdv_bound(void* array, uint64_t bound);
// n pointers to n distinct buffers of `bytes` bytes
void** __qdv_bufs(size_t n, size_t bytes, unsigned elem, unsigned align, const char* name);
void __qdv_bufs_bound(void** bufs, uint64_t bound);
// the present contents, kept for the postcondition
void* __qdv_clone(const void* array);
// uninterpreted functions
uint64_t __qdv_uf(const char* name, ...);   // arguments: uint64_t
bool __qdv_same_object(const void*, const void*);
size_t __qdv_offset(const void*);
size_t __qdv_alloc_bytes(const void*);
bool __qdv_freed(const void*);
void __qdv_lemma_mul_le(uint64_t a, uint64_t b, uint64_t A, uint64_t B);
void __qdv_lemma_divmod(uint64_t p, uint64_t d, uint64_t q, uint64_t r);
// 0*b = 0, 1*b = b, (m-1)*b = m-b modulo m (b < m)
void __qdv_lemma_unit(uint64_t a, uint64_t b, uint64_t m);
// equality in Z/p of expressions over the ring operations, for every value of their leaves
void __qdv_ring_eq_16(uint16_t a, uint16_t b, uint64_t p, const char* what);
void __qdv_ring_eq_32(uint32_t a, uint32_t b, uint64_t p, const char* what);
void __qdv_ring_eq_64(uint64_t a, uint64_t b, uint64_t p, const char* what);
void __qdv_reach(const char* what);
void __qdv_dump(uint64_t);
}
template <typename T>
inline T qdv_any(const char* name);
template <> inline bool qdv_any<bool>(const char* n) { return __qdv_bool(n); }
template <> inline uint8_t qdv_any<uint8_t>(const char* n) { return __qdv_u8(n); }
template <> inline uint16_t qdv_any<uint16_t>(const char* n) { return __qdv_u16(n); }
template <> inline uint32_t qdv_any<uint32_t>(const char* n) { return __qdv_u32(n); }
template <> inline uint64_t qdv_any<uint64_t>(const char* n) { return __qdv_u64(n); }
template <> inline unsigned __int128 qdv_any<unsigned __int128>(const char* n) { return __qdv_u128(n); }
template <> inline int qdv_any<int>(const char* n) { return (int)__qdv_u32(n); }
template <typename T>
inline T* qdv_array(size_t n, const char* name)
{
    return static_cast<T*>(__qdv_array(n * sizeof(T), sizeof(T), 32, name));
}
template <typename T>
inline T* qdv_clone(const T* p)
{
    return static_cast<T*>(__qdv_clone(p));
}
inline void ring_eq(uint16_t a, uint16_t b, uint64_t p, const char* what) { __qdv_ring_eq_16(a, b, p, what); }
inline void ring_eq(uint32_t a, uint32_t b, uint64_t p, const char* what) { __qdv_ring_eq_32(a, b, p, what); }
inline void ring_eq(uint64_t a, uint64_t b, uint64_t p, const char* what) { __qdv_ring_eq_64(a, b, p, what); }
#define CONTRACT(name) extern "C" void contract_##name()
#endif
