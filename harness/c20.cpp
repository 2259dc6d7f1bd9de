// C20: aligned allocation.
#include "common.h"
#include "quadiron.h"
#include <list>
#include <new>
// every block obtained from operator new is recorded: it must be released with
// the very pointer it was obtained with, once, and requests are checked
static bool track; static std::map<void*, size_t>* live; static size_t last_req;
static void* raw_new(size_t n) { size_t want = n; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (track) { track = false; (*live)[p] = n; track = true; } last_req = want; return p; }
static void raw_del(void* p) noexcept { if (!p) return; if (track) { track = false; auto it = live->find(p); if (it == live->end()) hx::fail("released a pointer that was not obtained, or twice"); live->erase(it); track = true; } free(p); }
void* operator new(size_t n) { return raw_new(n); }
void* operator new[](size_t n) { return raw_new(n); }
void operator delete(void* p) noexcept { raw_del(p); }
void operator delete[](void* p) noexcept { raw_del(p); }
void operator delete(void* p, size_t) noexcept { raw_del(p); }
void operator delete[](void* p, size_t) noexcept { raw_del(p); }
using namespace quadiron;
struct TrackOn { TrackOn() { track = true; } ~TrackOn() { track = false; } };

struct Odd { unsigned char b[24]; };
template <typename T> void history(int steps)
{
    simd::AlignedAllocator<T> a; struct B { T* p; size_t n; unsigned char v; }; std::list<B> bs; size_t cnt = 0;
    auto drop = [&](typename std::list<B>::iterator it) {
        for (size_t i = 0; i < it->n * sizeof(T); i++) CHECK(((unsigned char*)it->p)[i] == it->v, "a buffer of %zu elements was overwritten", it->n);
        simd::AlignedAllocator<uint64_t> o; simd::AlignedAllocator<T> b(o);
        { TrackOn t; (hx::coin() ? a : b).deallocate(it->p, it->n); } bs.erase(it);
        CHECK(live->size() == --cnt, "a release freed %zu blocks", cnt + 1 - live->size());
    };
    for (int s = 0; s < steps; s++) {
        if (bs.size() < 40 && hx::R(5) < 3) {
            size_t n = hx::coin(8) ? 0 : hx::coin(8) ? hx::R(20000) : hx::R(70);
            hx::at("allocation of %zu elements of %zu bytes after %d steps", n, sizeof(T), s);
            T* p; { TrackOn t; p = a.allocate(n); } cnt++;
            CHECK(p != nullptr && live->size() == cnt, "allocation took %zu blocks", live->size() + 1 - cnt);
            CHECK(last_req >= n * sizeof(T), "request of %zu bytes for %zu", last_req, n * sizeof(T));
            CHECK((uintptr_t)p % simd::ALIGNMENT == 0 || simd::INSTRUCTION_SET == simd::InstructionSet::NONE, "address %p is not aligned on %zu", (void*)p, (size_t)simd::ALIGNMENT);
            CHECK((uintptr_t)p % alignof(T) == 0, "address not aligned for the element"); CHK(simd::addr_is_aligned(p));
            size_t in = 0; for (auto& b : *live) if ((uintptr_t)p >= (uintptr_t)b.first && (uintptr_t)p + n * sizeof(T) <= (uintptr_t)b.first + b.second) in++;
            CHECK(in >= 1, "the buffer is not inside the memory obtained for it");
            for (auto& b : bs) CHECK(p + n <= b.p || b.p + b.n <= p || !n || !b.n, "two live buffers overlap");
            unsigned char v = (unsigned char)(1 + hx::R(255)); memset((void*)p, v, n * sizeof(T)); bs.push_back({p, n, v});
        } else if (!bs.empty()) { auto it = bs.begin(); std::advance(it, hx::R(bs.size())); hx::at("release of a buffer of %zu elements of %zu bytes", it->n, sizeof(T)); drop(it); }
    }
    while (!bs.empty()) drop(bs.begin());
    { TrackOn t; a.deallocate(nullptr, 3); }
    // impossible sizes
    size_t mx = a.max_size(); CHK(mx >= 1000); CHK((u_int64_t)mx <= SIZE_MAX / sizeof(T));
    CHECK((hx::u128)mx * sizeof(T) + simd::ALIGNMENT <= (hx::u128)SIZE_MAX, "max_size lets the byte count overflow");
    for (size_t n : {mx + 1, SIZE_MAX, SIZE_MAX / sizeof(T), SIZE_MAX - 1, SIZE_MAX / 2 + 1, SIZE_MAX / sizeof(T) + 1, (SIZE_MAX - simd::ALIGNMENT) / sizeof(T) + 1}) {
        if (n <= mx) continue;
        hx::at("allocation of %zu elements of %zu bytes", n, sizeof(T)); bool thrown = false; last_req = 12345; T* p = nullptr;
        try { p = a.allocate(n); } catch (std::bad_alloc&) { thrown = true; }
        CHECK(thrown && !p, "an impossible size is not refused"); CHECK(last_req == 12345, "an impossible size requests %zu bytes", last_req);
    }
    CHK(a == simd::AlignedAllocator<uint8_t>() && !(a != simd::AlignedAllocator<uint8_t>()));
}
SEC(allocator)
{
    live = new std::map<void*, size_t>();
    int n = 2000 * hx::scale();
    history<uint8_t>(n); history<uint16_t>(n); history<uint32_t>(n); history<uint64_t>(n); history<__uint128_t>(n); history<Odd>(n);
    CHK((simd::ALIGNMENT & (simd::ALIGNMENT - 1)) == 0);
#if defined(__AVX2__) && defined(QUADIRON_USE_SIMD)
    CHK(simd::ALIGNMENT == 32 && simd::INSTRUCTION_SET == simd::InstructionSet::AVX);
#elif defined(__SSE4_1__) && defined(QUADIRON_USE_SIMD)
    CHK(simd::ALIGNMENT == 16 && simd::INSTRUCTION_SET == simd::InstructionSet::SSE);
#else
    CHK(simd::INSTRUCTION_SET == simd::InstructionSet::NONE);
#endif
}
SEC(containers)
{
    live = new std::map<void*, size_t>();
    for (int i = 0; i < 200 * hx::scale(); i++) {
        int n = (int)hx::R(10); size_t sz = hx::R(100); hx::at("buffer sets of %d buffers of %zu", n, sz);
        { TrackOn t; vec::Buffers<uint32_t> a(n, sz); a.zero_fill(); { vec::Buffers<uint32_t> b(a, n + 3), c(a), d(a, n ? n - 1 : 0, n + 2), e(a, b); b = a; std::swap(b, c); }
          for (int k = 0; k < n; k++) { if ((uintptr_t)a.get(k) % simd::ALIGNMENT && simd::INSTRUCTION_SET != simd::InstructionSet::NONE) hx::fail("buffer %d not aligned", k); if (sz) a.get(k)[sz - 1] = 1; } }
        CHECK(live->empty(), "%zu blocks are never released", live->size());
    }
}
HX_MAIN
