// Views, slices, vectors and buffer sets show exactly the memory they stand for.
#include "quadiron.h"
#include "gf_prime.h"
#include "vec_vector.h"
#include "vec_slice.h"
#include "vec_view.h"
#include "vec_zero_ext.h"
#include "vec_buffers.h"
#include "qdv.h"
using namespace quadiron;
#include "bufs.h"

struct Int {
    int v;
    Int(const char* name, int lo, int hi)
    {
        v = qdv_any<int>(name);
        __qdv_assume(v >= lo && v <= hi);
    }
    operator int() const { return v; }
};
static const int BIG = (1 << 30) - 1;
// a vector of `len` elements, and any index of it
template <typename T>
struct Base {
    Raw<gf::Prime<T>> gf;
    int len;
    T* mem;
    T* old;
    vec::Vector<T> v;
    Base() : len(Int("len", 0, BIG)), mem(qdv_array<T>(len, "mem")), old(qdv_clone(mem)), v(*gf, len, mem, len) {}
    // nothing but the element at `where` changed
    void only(int where, T val)
    {
        const int g = qdv_any<int>("g");
        if (g >= 0 && g < len)
            __qdv_assert(mem[g] == (g == where ? val : old[g]), "only the designated element is written");
    }
};
template <typename T>
void c_slice()
{
    Base<T> b;
    Int off("off", 0, b.len), n("n", 0, BIG), i("i", 0, BIG);
    vec::Slice<T> s(&b.v, n, off);
    const int want = n < b.len - off ? int(n) : b.len - off;
    __qdv_assert(s.get_n() == want, "length of a slice");
    __qdv_assert(s.get_offset() == off, "offset of a slice");
    __qdv_assert(s.get_mem() == b.mem + off && s.get_mem_len() == b.len - off, "memory of a slice");
    __qdv_assume(i < want);
    __qdv_assert(s.get(i) == b.old[off + i] && &s.get(i) == b.mem + off + i, "a slice reads what it designates");
    const T x = qdv_any<T>("x");
    s.set(i, x);
    b.only(off + i, x);
    __qdv_assert(s.get(i) == x, "read back");
}
template <typename T>
void c_slice_move()
{
    Base<T> b;
    Int off("off", 0, b.len), n("n", 0, BIG), i("i", 0, BIG), to("to", 0, BIG);
    __qdv_assume(to <= b.len);
    vec::Slice<T> s(&b.v, n, off);
    const int had = s.get_n();
    s.set_map(to);
    const int want = had < b.len - to ? had : b.len - to;
    __qdv_assert(s.get_n() == want && s.get_offset() == to, "length of a moved slice");
    __qdv_assert(s.get_mem() == b.mem + to, "memory of a moved slice");
    __qdv_assume(i < want);
    __qdv_assert(s.get(i) == b.old[to + i], "a moved slice reads what it designates");
    const T x = qdv_any<T>("x");
    s.set(i, x);
    b.only(to + i, x);
}
// beyond its end a slice is empty
template <typename T>
void c_slice_beyond()
{
    Base<T> b;
    Int off("off", 0, BIG), n("n", 0, BIG);
    __qdv_assume(off >= b.len);
    Raw<vec::Slice<T>> raw;
    b.v.n = b.len;
    vec::Slice<T> s(&b.v, n, b.len);
    __qdv_assert(s.get_n() == 0 && s.get_mem_len() == 0, "nothing beyond the end");
}
template <typename T>
void c_view()
{
    Base<T> b;
    Int n("n", 0, BIG), i("i", 0, BIG), off("off", 0, BIG), step("step", 0, BIG);
    __qdv_assume(n <= b.len && i < n);
    const uint64_t at = uint64_t(int64_t(step) * int64_t(i));
    __qdv_assume(at < (1ull << 30));
    vec::View<T> s(&b.v, n, off, step);
    __qdv_assert(s.get_n() == n, "length of a view");
    const int loc = (off + step * i) % b.len;
    __qdv_assert(&s.get(i) == b.mem + loc, "a view reads what it designates");
    const T x = qdv_any<T>("x");
    s.set(i, x);
    b.only(loc, x);
    Int off2("off2", 0, BIG), step2("step2", 0, BIG);
    const uint64_t at2 = uint64_t(int64_t(step2) * int64_t(i));
    __qdv_assume(at2 < (1ull << 30));
    s.set_map(off2, step2);
    __qdv_assert(&s.get(i) == b.mem + (off2 + step2 * i) % b.len, "a re-mapped view reads what it designates");
}
template <typename T>
void c_view_len()
{
    Base<T> b, c;
    Int n("n", 0, BIG), m("m", 0, BIG), i("i", 0, BIG), off("off", 0, BIG);
    __qdv_assume(n <= b.len && m <= b.len && i < m && m <= c.len && n <= c.len);
    vec::View<T> s(&b.v, n, off, 1);
    s.set_len(m);
    __qdv_assert(s.get_n() == m, "length of a view");
    __qdv_assert(&s.get(i) == b.mem + (off + i) % b.len, "a resized view reads what it designates");
    s.set_vec(&c.v);
    __qdv_assert(&s.get(i) == c.mem + (off + i) % c.len, "a re-based view reads what it designates");
}
// a view of a slice
template <typename T>
void c_view_slice()
{
    Base<T> b;
    Int so("so", 0, b.len), sn("sn", 1, BIG), n("n", 0, BIG), i("i", 0, BIG), off("off", 0, BIG), step("step", 0, 16);
    __qdv_assume(so < b.len && sn <= b.len - so);
    __qdv_assume(n <= sn && i < n && i < (1 << 20));
    vec::Slice<T> s(&b.v, sn, so);
    vec::View<T> w(&s, n, off, step);
    const int loc = so + (off + step * i) % sn;
    __qdv_assert(&w.get(i) == b.mem + loc, "a view of a slice reads what it designates");
    const T x = qdv_any<T>("x");
    w.set(i, x);
    b.only(loc, x);
    // and a slice of a view is a window on the memory
    vec::ZeroExtended<T> z(s, sn + 3);
    const int k = qdv_any<int>("k");
    __qdv_assume(k >= 0 && k < sn + 3);
    __qdv_assert(z.get(k) == (k < sn ? b.mem[so + k] : 0), "a zero-extended slice");
}
template <typename T>
void c_zero_ext()
{
    Base<T> b;
    Int n("n", 0, BIG), i("i", 0, BIG);
    __qdv_assume(i < n);
    vec::ZeroExtended<T> z(b.v, n);
    __qdv_assert(z.get_n() == n, "length of an extension");
    __qdv_assert(z.get(i) == (i < b.len ? b.old[i] : 0), "zero beyond the end");
    b.only(-1, 0);
}
// ------------------------------------------------------------------ vectors
template <typename T>
void c_vector_own()
{
    Raw<gf::Prime<T>> gf;
    Int n("n", 0, BIG), i("i", 0, BIG);
    T* p;
    {
        vec::Vector<T> v(*gf, n);
        p = v.get_mem();
        __qdv_assert(v.get_n() == n && v.get_mem_len() == n, "lengths");
        __qdv_assert(&v.get_gf() == &*gf, "ring");
        if (i < n) {
            const T x = qdv_any<T>("x");
            v.set(i, x);
            __qdv_assert(v.get(i) == x && p[i] == x, "read back");
        }
        __qdv_assert(!__qdv_freed(p), "live");
    }
    __qdv_assert(__qdv_freed(p), "owned memory is released");
}
template <typename T>
void c_vector_shared()
{
    Base<T> b;
    {
        vec::Vector<T> v(*b.gf, b.len, b.mem, b.len);
        vec::Vector<T> w(v);
        __qdv_assert(w.get_mem() == b.mem, "a copy of a vector that owns nothing shows the same memory");
        vec::Vector<T> u(std::move(w));
        __qdv_assert(u.get_mem() == b.mem && u.get_n() == b.len, "moved");
    }
    __qdv_assert(!__qdv_freed(b.mem), "memory it does not own is left alone");
    b.only(-1, 0);
}
template <typename T>
void c_vector_copy()
{
    Raw<gf::Prime<T>> gf;
    Int n("n", 0, BIG), i("i", 0, BIG);
    __qdv_assume(i < n);
    vec::Vector<T> v(*gf, n);
    const T x = qdv_any<T>("x"), y = qdv_any<T>("y");
    v.set(i, x);
    T *p = v.get_mem(), *q;
    {
        vec::Vector<T> w(v);
        q = w.get_mem();
        __qdv_assert(!__qdv_same_object(p, q), "a copy has memory of its own");
        __qdv_assert(w.get_n() == n && w.get(i) == x, "a copy has the same elements");
        w.set(i, y);
        __qdv_assert(v.get(i) == x, "a copy leaves the source");
    }
    __qdv_assert(__qdv_freed(q) && !__qdv_freed(p) && v.get(i) == x, "destroying a copy leaves the source");
}
template <typename T>
void c_vector_assign(bool move)
{
    Raw<gf::Prime<T>> gf, gf2;
    Int n("n", 0, BIG), m("m", 0, BIG), i("i", 0, BIG);
    __qdv_assume(i < n);
    vec::Vector<T> v(*gf, n);
    const T x = qdv_any<T>("x"), y = qdv_any<T>("y");
    v.set(i, x);
    T *p = v.get_mem(), *q, *r;
    {
        vec::Vector<T> w(*gf2, m);
        q = w.get_mem();
        if (move)
            w = std::move(v);
        else
            w = v;
        r = w.get_mem();
        __qdv_assert(__qdv_freed(q), "the replaced memory is released");
        __qdv_assert(move ? r == p : !__qdv_same_object(r, p), "assignment copies, moving does not");
        __qdv_assert(w.get_n() == n && w.get(i) == x && &w.get_gf() == &*gf, "assigned");
        w.set(i, y);
        __qdv_assert(move || v.get(i) == x, "assignment leaves the source");
    }
    __qdv_assert(__qdv_freed(r), "released");
    __qdv_assert(move || !__qdv_freed(p), "the source lives on");
}
template <typename T>
void c_vector_swap()
{
    Base<T> b, c;
    swap(b.v, c.v);
    __qdv_assert(b.v.get_mem() == c.mem && b.v.get_n() == c.len && c.v.get_mem() == b.mem && c.v.get_n() == b.len, "swapped");
    __qdv_assert(b.v.get_mem_len() == c.len && c.v.get_mem_len() == b.len, "lengths swapped");
    b.only(-1, 0);
    c.only(-1, 0);
}
template <typename T>
void c_vector_swap_elems()
{
    Base<T> b;
    Int i("i", 0, BIG), j("j", 0, BIG), g("h", 0, BIG);
    __qdv_assume(i < b.len && j < b.len && g < b.len);
    b.v.swap(i, j);
    __qdv_assert(b.mem[g] == (g == i ? b.old[j] : g == j ? b.old[i] : b.old[g]), "two elements change places");
}
template <typename T>
void c_vector_fill(int how)
{
    Base<T> b;
    const T x = how ? 0 : qdv_any<T>("x");
    if (how)
        b.v.zero_fill();
    else
        b.v.fill(x);
    const int g = qdv_any<int>("g");
    __qdv_assume(g >= 0 && g < b.len);
    __qdv_assert(b.mem[g] == x, "every element is set");
}
template <typename T>
void c_vector_copy_range(int how)
{
    Base<T> b, c;
    Int n("n", 0, BIG), d("d", 0, BIG), s("s", 0, BIG);
    if (how == 0)
        __qdv_assume(n == c.len);
    if (how < 2)
        __qdv_assume(d == 0);
    if (how < 3)
        __qdv_assume(s == 0);
    __qdv_assume(n <= b.len && d <= b.len - n && s <= c.len);
    if (how == 0)
        b.v.copy(&c.v);
    else if (how == 1)
        b.v.copy(&c.v, n);
    else if (how == 2)
        b.v.copy(&c.v, n, d);
    else
        b.v.copy(&c.v, n, d, s);
    const int g = qdv_any<int>("g");
    __qdv_assume(g >= 0 && g < b.len);
    const bool in = g >= d && g < d + n;
    __qdv_assert(b.mem[g] == (!in ? b.old[g] : g - d < c.len - s ? c.old[g - d + s] : 0), "exactly the range is copied, zero beyond the source");
    c.only(-1, 0);
}
template <typename T>
void c_vector_set_mem()
{
    Base<T> b;
    Raw<gf::Prime<T>> gf;
    Int n("n", 0, BIG);
    T* p;
    {
        vec::Vector<T> v(*gf, n);
        p = v.get_mem();
        v.set_mem(b.mem, b.len);
        __qdv_assert(__qdv_freed(p), "the replaced memory is released");
        __qdv_assert(v.get_mem() == b.mem && v.get_mem_len() == b.len, "shows the given memory");
    }
    __qdv_assert(!__qdv_freed(b.mem), "memory it does not own is left alone");
}
template <typename T>
void c_vector_equal()
{
    Base<T> b, c;
    const bool r = b.v == c.v;
    Int g("g", 0, BIG);
    if (r) {
        __qdv_assert(b.len == c.len, "equal vectors have one length");
        if (g < b.len)
            __qdv_assert(b.mem[g] == c.mem[g], "equal vectors have equal elements");
    }
    b.only(-1, 0);
    c.only(-1, 0);
}

// ------------------------------------------------------------------ buffer sets
// n distinct buffers of `size` elements, and any element of them
template <typename T>
struct Bufs {
    int n;
    size_t size;
    AnyBuffers<T> b;
    explicit Bufs(int count = -1, size_t sz = 0)
        : n(count < 0 ? int(Int("n", 0, BIG)) : count), size(sz ? sz : any_size()), b(n, size, size, "buf")
    {
        b.b->mem_alloc_case = vec::BufMemAlloc::NONE;
    }
    static size_t any_size()
    {
        const size_t s = qdv_any<uint64_t>("size");
        __qdv_assume(s > 0 && s < (1ull << 40));
        return s;
    }
    vec::Buffers<T>& operator*() { return *b; }
    T* at(int i) const { return b.p[i]; }
    void untouched()
    {
        const int h = qdv_any<int>("h");
        const size_t g = qdv_any<uint64_t>("g");
        if (h >= 0 && h < n && g < size)
            __qdv_assert(b.p[h][g] == b.old[h][g], "the source is unchanged");
    }
};
struct Elem {
    size_t g;
    explicit Elem(size_t size)
    {
        g = qdv_any<uint64_t>("at");
        __qdv_assume(g < size);
    }
    operator size_t() const { return g; }
};
template <typename T>
void c_buf_get()
{
    Bufs<T> s;
    Int i("i", 0, BIG), j("j", 0, BIG), k("k", 0, BIG);
    __qdv_assume(i < s.n && j < s.n && k < s.n);
    const vec::Buffers<T>& c = *s;
    __qdv_assert((*s).get(i) == s.at(i) && c.get(i) == s.at(i), "a buffer is the memory given");
    __qdv_assert(c.get_n() == s.n && c.get_size() == s.size, "dimensions");
    T *pi = s.at(i), *pj = s.at(j), *pk = s.at(k);
    s.untouched();
    (*s).swap(i, j);
    __qdv_assert((*s).get(k) == (k == i ? pj : k == j ? pi : pk), "two buffers change places");
}
template <typename T>
void c_buf_set()
{
    Bufs<T> s;
    Int i("i", 0, BIG), k("k", 0, BIG);
    __qdv_assume(i < s.n && k < s.n);
    T* other = qdv_array<T>(s.size, "other");
    T* pk = s.at(k);
    (*s).set(i, other);
    __qdv_assert((*s).get(k) == (k == i ? other : pk), "one buffer is replaced");
    __qdv_assert(!__qdv_freed(pk), "memory it does not own is left alone");
}
template <typename T>
void c_buf_fill()
{
    Bufs<T> s;
    Int i("i", 0, BIG), k("k", 0, BIG);
    __qdv_assume(i < s.n && k < s.n);
    Elem g(s.size);
    const T x = qdv_any<T>("x");
    (*s).fill(i, x);
    __qdv_assert(s.at(k)[g] == (k == i ? x : s.b.old[k][g]), "one buffer is filled");
    (*s).zero_fill();
    __qdv_assert(s.at(k)[g] == 0, "every buffer is cleared");
}
template <typename T>
void c_buf_copy_one()
{
    Bufs<T> s;
    Int i("i", 0, BIG), k("k", 0, BIG);
    __qdv_assume(i < s.n && k < s.n);
    Elem g(s.size);
    T* other = qdv_array<T>(s.size, "other");
    T* old = qdv_clone(other);
    (*s).copy(i, other);
    __qdv_assert(s.at(k)[g] == (k == i ? old[g] : s.b.old[k][g]), "one buffer is copied");
    __qdv_assert(other[g] == old[g], "the source is unchanged");
}
template <typename T>
void c_buf_copy()
{
    Bufs<T> s;
    const size_t room = qdv_any<uint64_t>("room");
    __qdv_assume(room >= s.size && room < (1ull << 40));
    Bufs<T> d(s.n, room);
    Int k("k", 0, BIG);
    __qdv_assume(k < s.n);
    Elem g(room);
    (*d).copy(*s);
    __qdv_assert(d.at(k)[g] == (g < s.size ? s.b.old[k][g] : d.b.old[k][g]), "every buffer is copied");
    s.untouched();
}
template <typename T>
void c_buf_equal()
{
    Bufs<T> s;
    Bufs<T> d;
    const bool r = *s == *d;
    Int k("k", 0, BIG);
    const size_t g = qdv_any<uint64_t>("at");
    if (r) {
        __qdv_assert(s.n == d.n && s.size == d.size, "equal sets have equal dimensions");
        if (k < s.n && g < s.size)
            __qdv_assert(s.at(k)[g] == d.at(k)[g], "equal sets have equal elements");
    }
}
// a set over given memory
template <typename T>
void c_buf_given()
{
    Bufs<T> s;
    Int k("k", 0, BIG);
    __qdv_assume(k < s.n);
    T* pk = s.at(k);
    {
        vec::Buffers<T> v(s.n, s.size, *reinterpret_cast<std::vector<T*>*>(&(*s).mem));
        __qdv_assert(v.get(k) == pk, "shows the given memory");
        __qdv_assert(v.get_n() == s.n && v.get_size() == s.size, "dimensions");
    }
    __qdv_assert(!__qdv_freed(pk), "memory it does not own is left alone");
    s.untouched();
}
template <typename T>
void c_buf_slice()
{
    Bufs<T> s;
    Int begin("begin", 0, BIG), end("end", 0, BIG), k("k", 0, BIG);
    __qdv_assume(begin < end && end <= s.n && k < end - begin);
    T* p = s.at(begin + k);
    {
        vec::Buffers<T> v(*s, begin, end);
        __qdv_assert(v.get_n() == end - begin && v.get_size() == s.size, "dimensions of a slice");
        __qdv_assert(v.get(k) == p, "a slice shows what it designates");
        const Elem g(s.size);
        const T x = qdv_any<T>("x");
        v.get(k)[g] = x;
        __qdv_assert(s.at(begin + k)[g] == x, "writes reach the source");
    }
    __qdv_assert(!__qdv_freed(p), "memory it does not own is left alone");
}
template <typename T>
void c_buf_extend()
{
    Bufs<T> s;
    Int begin("begin", 0, BIG), end("end", 0, BIG), k("k", 0, BIG);
    __qdv_assume(begin < end && end > s.n && k < end - begin);
    const Elem g(s.size);
    T *z = nullptr, *p = nullptr;
    {
        vec::Buffers<T> v(*s, begin, end);
        __qdv_assert(v.get_n() == end - begin && v.get_size() == s.size, "dimensions of an extension");
        z = v.get(end - begin - 1);
        __qdv_assert(z[g] == 0, "zero beyond the end");
        if (k < s.n - begin) {
            p = s.at(begin + k);
            __qdv_assert(v.get(k) == p, "an extension shows what it designates");
        } else {
            __qdv_assert(v.get(k) == z, "one zero buffer beyond the end");
        }
    }
    __qdv_assert(__qdv_freed(z), "the zero buffer is released");
    if (k < s.n - begin)
        __qdv_assert(!__qdv_freed(p), "memory it does not own is left alone");
    s.untouched();
}
template <typename T>
void c_buf_combine()
{
    Bufs<T> s, d(-1, s.size);
    Int k("k", 0, BIG);
    __qdv_assume(s.n <= BIG / 2 && d.n <= BIG / 2 && k < s.n + d.n);
    T* p = k < s.n ? s.at(k) : d.at(k - s.n);
    {
        vec::Buffers<T> v(*s, *d);
        __qdv_assert(v.get_n() == s.n + d.n && v.get_size() == s.size, "dimensions of a concatenation");
        __qdv_assert(v.get(k) == p, "a concatenation shows what it designates");
    }
    __qdv_assert(!__qdv_freed(p), "memory it does not own is left alone");
    s.untouched();
    d.untouched();
}
template <typename T>
void c_buf_even_odd()
{
    Bufs<T> s;
    Int k("k", 0, BIG);
    __qdv_assume(s.n % 2 == 0 && k < s.n);
    const int half = s.n / 2;
    T* p = s.at(k < half ? 2 * k : 2 * (k - half) + 1);
    (*s).separate_even_odd();
    __qdv_assert((*s).get(k) == p, "even buffers, then odd ones");
}
// sets of up to four buffers that own their memory; any size
template <typename T, int N, int M>
void c_buf_own()
{
    const size_t size = Bufs<T>::any_size();
    const Elem g(size);
    T *p[N + M], *q[N + M];
    T x[N + M];
    {
        vec::Buffers<T> v(N, size);
        __qdv_assert(v.get_n() == N && v.get_size() == size, "dimensions");
        for (int i = 0; i < N; i++) {
            p[i] = v.get(i);
            x[i] = qdv_any<T>("x");
            p[i][g] = x[i];
            for (int j = 0; j < i; j++)
                __qdv_assert(!__qdv_same_object(p[i], p[j]), "buffers are distinct");
        }
        const int m = M;   // 0: as many
        {
            vec::Buffers<T> w(v, m);
            const int n = m ? m : N;
            __qdv_assert(w.get_n() == n && w.get_size() == size, "dimensions of a copy");
            for (int i = 0; i < n; i++) {
                q[i] = w.get(i);
                __qdv_assert(q[i][g] == (i < N ? x[i] : 0), "a copy has the same elements, then zeros");
                q[i][g] = qdv_any<T>("y");
            }
            for (int i = 0; i < N; i++)
                __qdv_assert(p[i][g] == x[i], "writing a copy leaves the source");
        }
        const int n = m ? m : N;
        for (int i = 0; i < n; i++)
            __qdv_assert(__qdv_freed(q[i]), "a copy releases its memory");
        for (int i = 0; i < N; i++)
            __qdv_assert(!__qdv_freed(p[i]) && p[i][g] == x[i], "destroying a copy leaves the source");
        vec::Buffers<T> a(1, size + 1);
        T* r = a.get(0);
        a = v;
        __qdv_assert(__qdv_freed(r), "the replaced memory is released");
        __qdv_assert(a.get_n() == N && a.get_size() == size, "dimensions after assignment");
        for (int i = 0; i < N; i++) {
            q[i] = a.get(i);
            __qdv_assert(!__qdv_same_object(p[i], q[i]) && q[i][g] == x[i], "assignment copies");
        }
    }
    for (int i = 0; i < N; i++)
        __qdv_assert(__qdv_freed(p[i]) && __qdv_freed(q[i]), "owned memory is released");
}
// re-mapped sets: every map of up to three buffers into up to four
template <typename T, int M, int N>
void c_buf_map()
{
    Bufs<T> s(M);
    const Elem g(s.size);
    Raw<gf::Prime<T>> gf;
    T map[M];
    for (int i = 0; i < M; i++) {
        map[i] = qdv_any<T>("map");
        __qdv_assume(map[i] < N);
        for (int j = 0; j < i; j++)
            __qdv_assume(map[i] != map[j]);
    }
    vec::Vector<T> v(*gf, M, map, M);
    T* z = nullptr;
    {
        vec::Buffers<T> w(*s, v, N);
        __qdv_assert(w.get_n() == N && w.get_size() == s.size, "dimensions of a map");
        for (int k = 0; k < N; k++) {
            int from = -1;
            for (int i = 0; i < M; i++)
                if (map[i] == T(k))
                    from = i;
            T* p = w.get(k);
            if (from < 0) {
                z = p;
                __qdv_assert(p[g] == 0, "zero where nothing is mapped");
            } else {
                __qdv_assert(p == s.at(from), "a map shows what it designates");
            }
        }
    }
    if (M < N)
        __qdv_assert(__qdv_freed(z), "the zero buffer is released");
    for (int i = 0; i < M; i++)
        __qdv_assert(!__qdv_freed(s.at(i)), "memory it does not own is left alone");
    s.untouched();
}
#define ALL(N, T) \
    CONTRACT(slice_##N) { c_slice<T>(); } \
    CONTRACT(slice_move_##N) { c_slice_move<T>(); } \
    CONTRACT(slice_beyond_##N) { c_slice_beyond<T>(); } \
    CONTRACT(view_##N) { c_view<T>(); } \
    CONTRACT(view_len_##N) { c_view_len<T>(); } \
    CONTRACT(view_slice_##N) { c_view_slice<T>(); } \
    CONTRACT(zero_ext_##N) { c_zero_ext<T>(); } \
    CONTRACT(vector_own_##N) { c_vector_own<T>(); } \
    CONTRACT(vector_shared_##N) { c_vector_shared<T>(); } \
    CONTRACT(vector_copy_##N) { c_vector_copy<T>(); } \
    CONTRACT(vector_assign_##N) { c_vector_assign<T>(false); } \
    CONTRACT(vector_move_##N) { c_vector_assign<T>(true); } \
    CONTRACT(vector_swap_##N) { c_vector_swap<T>(); } \
    CONTRACT(vector_swap_elems_##N) { c_vector_swap_elems<T>(); } \
    CONTRACT(vector_fill_##N) { c_vector_fill<T>(0); } \
    CONTRACT(vector_zero_fill_##N) { c_vector_fill<T>(1); } \
    CONTRACT(vector_copy_all_##N) { c_vector_copy_range<T>(0); } \
    CONTRACT(vector_copy_n_##N) { c_vector_copy_range<T>(1); } \
    CONTRACT(vector_copy_to_##N) { c_vector_copy_range<T>(2); } \
    CONTRACT(vector_copy_from_##N) { c_vector_copy_range<T>(3); } \
    CONTRACT(vector_set_mem_##N) { c_vector_set_mem<T>(); } \
    CONTRACT(vector_equal_##N) { c_vector_equal<T>(); }
#define BUFS(N, T) \
    CONTRACT(buf_get_##N) { c_buf_get<T>(); } \
    CONTRACT(buf_set_##N) { c_buf_set<T>(); } \
    CONTRACT(buf_fill_##N) { c_buf_fill<T>(); } \
    CONTRACT(buf_copy_one_##N) { c_buf_copy_one<T>(); } \
    CONTRACT(buf_copy_##N) { c_buf_copy<T>(); } \
    CONTRACT(buf_equal_##N) { c_buf_equal<T>(); } \
    CONTRACT(buf_given_##N) { c_buf_given<T>(); } \
    CONTRACT(buf_slice_##N) { c_buf_slice<T>(); } \
    CONTRACT(buf_extend_##N) { c_buf_extend<T>(); } \
    CONTRACT(buf_combine_##N) { c_buf_combine<T>(); } \
    CONTRACT(buf_even_odd_##N) { c_buf_even_odd<T>(); } \
    CONTRACT(buf_own1_##N) { c_buf_own<T, 1, 0>(); } \
    CONTRACT(buf_own1_grow_##N) { c_buf_own<T, 1, 2>(); } \
    CONTRACT(buf_own2_##N) { c_buf_own<T, 2, 0>(); } \
    CONTRACT(buf_own2_grow_##N) { c_buf_own<T, 2, 3>(); } \
    CONTRACT(buf_own3_##N) { c_buf_own<T, 3, 0>(); } \
    CONTRACT(buf_own3_first_##N) { c_buf_own<T, 3, 2>(); } \
    CONTRACT(buf_own3_grow_##N) { c_buf_own<T, 3, 4>(); } \
    CONTRACT(buf_map11_##N) { c_buf_map<T, 1, 1>(); } \
    CONTRACT(buf_map22_##N) { c_buf_map<T, 2, 2>(); } \
    CONTRACT(buf_map33_##N) { c_buf_map<T, 3, 3>(); } \
    CONTRACT(buf_map13_##N) { c_buf_map<T, 1, 3>(); } \
    CONTRACT(buf_map24_##N) { c_buf_map<T, 2, 4>(); }
BUFS(u8, uint8_t)
BUFS(u16, uint16_t)
BUFS(u32, uint32_t)
BUFS(u64, uint64_t)
ALL(u16, uint16_t)
ALL(u32, uint32_t)
ALL(u64, uint64_t)
