// Arbitrary vectors and buffer sets as pre-states: the object is put together field by
// field in storage that is neither constructed nor destroyed.
#ifndef QDV_BUFS_H
#define QDV_BUFS_H
#include "quadiron.h"
#include "vec_buffers.h"
#include "vec_vector.h"
template <typename X>
struct Raw {
    alignas(X) unsigned char mem[sizeof(X)];
    X& operator*() { return *reinterpret_cast<X*>(mem); }
    X* operator->() { return reinterpret_cast<X*>(mem); }
};
template <typename T>
void qdv_std_vector(std::vector<T*>& v, T** p, size_t n)
{
    v._M_impl._M_start = p;
    v._M_impl._M_finish = p + n;
    v._M_impl._M_end_of_storage = p + n;
}
// n buffers of size elements, all distinct, arbitrary contents below `bound`
template <typename T>
struct AnyBuffers {
    Raw<quadiron::vec::Buffers<T>> b;
    T** p;
    T** old;
    AnyBuffers(size_t n, size_t size, size_t room, const char* name, T bound = 0)
    {
        p = reinterpret_cast<T**>(__qdv_bufs(n, room * sizeof(T), sizeof(T), 32, name));
        if (bound)
            __qdv_bufs_bound(reinterpret_cast<void**>(p), bound);
        b->n = int(n);
        b->size = size;
        b->mem_len = 0;
        b->mem_alloc_case = quadiron::vec::BufMemAlloc::NONE;
        b->zeros = nullptr;
        qdv_std_vector(b->mem, p, n);
        old = reinterpret_cast<T**>(__qdv_clone(p));
    }
    quadiron::vec::Buffers<T>& operator*() { return *b; }
};
// a vector of n arbitrary elements below `bound`
template <typename T>
struct AnyVector {
    T* p;
    T* old;
    quadiron::vec::Vector<T> v;
    AnyVector(const quadiron::gf::RingModN<T>& ring, size_t n, const char* name, T bound = 0)
        : p(qdv_array<T>(n, name)), old(bounded(p, bound)), v(ring, int(n), p, int(n))
    {
    }
    static T* bounded(T* p, T bound)
    {
        if (bound)
            __qdv_bound(p, bound);
        return qdv_clone(p);
    }
    quadiron::vec::Vector<T>& operator*() { return v; }
};
#endif
