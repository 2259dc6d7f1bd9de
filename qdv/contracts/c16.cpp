// Vector and polynomial algebra over any ring: the ring operations are their contracts
// (functions of their operands with a result below the modulus), everything else is the code.
#include "quadiron.h"
#include "gf_prime.h"
#include "vec_vector.h"
#include "vec_poly.h"
#include "qdv.h"
using namespace quadiron;
#include "bufs.h"

struct Int {
    int v;
    Int(const char* name, int lo, int hi)
    {
        v = qdv_any<int>(name);
        __qdv_assume(v >= lo && v <= hi);
    }
    operator int() const { return v; }
};
static const int BIG = (1 << 30) - 1;

template <typename T>
T any_card()
{
    const T card = qdv_any<T>("card");
    __qdv_assume(card >= 2);
    return card;
}
template <typename T>
T below(const char* name, T card)
{
    const T x = qdv_any<T>(name);
    __qdv_assume(x < card);
    return x;
}
template <typename T>
struct Any {
    int len;
    T* mem;
    T* old;
    vec::Vector<T> v;
    Any(gf::Prime<T>& gf, const char* name) : len(Int("len", 0, BIG)), mem(qdv_array<T>(len, name)), old(prepared(mem, gf.card())), v(gf, len, mem, len) {}
    static T* prepared(T* mem, T card)
    {
        __qdv_bound(mem, card);
        return qdv_clone(mem);
    }
    void unchanged()
    {
        const int h = qdv_any<int>("h");
        if (h >= 0 && h < len)
            __qdv_assert(mem[h] == old[h], "the operand is unchanged");
    }
};
#define AT(g, len) Int g("g", 0, BIG); __qdv_assume(g < (len))

template <typename T>
void c_mul_scalar()
{
    gf::Prime<T> gf(any_card<T>());
    Any<T> a(gf, "a");
    const T s = below<T>("s", gf.card());
    a.v.mul_scalar(s);
    AT(g, a.len);
    __qdv_assert(a.mem[g] == gf.mul(a.old[g], s), "every element is scaled");
}
template <typename T>
void c_mul_beta()
{
    gf::Prime<T> gf(any_card<T>());
    Any<T> a(gf, "a");
    const T beta = below<T>("beta", gf.card());
    a.v.mul_beta(beta);
    AT(g, a.len);
    if (g == 0) {
        __qdv_assert(a.mem[g] == a.old[g], "the first element is multiplied by 1");
    } else {
        T power = beta;
        for (int k = 1; k < g; k++)
            power = gf.mul(power, beta);
        __qdv_assert(a.mem[g] == gf.mul(a.old[g], power), "element i is multiplied by the i-th power");
    }
}
template <typename T>
void c_neg()
{
    gf::Prime<T> gf(any_card<T>());
    Any<T> a(gf, "a");
    a.v.neg();
    AT(g, a.len);
    __qdv_assert(a.mem[g] == gf.neg(a.old[g]), "every element is negated");
}
// sums, at every offset; how: 0 add, 1 add with offset, 2-4 add_mutual
template <typename T>
void c_sum(int how, bool self)
{
    gf::Prime<T> gf(any_card<T>());
    Any<T> a(gf, "a"), b(gf, "b");
    Any<T>& s = self ? a : b;
    Int offset("offset", 0, BIG), len("count", 0, BIG);
    if (how == 0)
        __qdv_assume(a.len == s.len);
    if (how != 1 && how != 3 && how != 4)
        __qdv_assume(offset == 0);
    if (how != 4)
        __qdv_assume(len == s.len);
    __qdv_assume(len <= s.len && offset <= a.len && len <= a.len - offset);
    if (how == 0)
        a.v.add(&s.v);
    else if (how == 1)
        a.v.add(&s.v, offset);
    else if (how == 2)
        a.v.add_mutual(&s.v);
    else if (how == 3)
        a.v.add_mutual(&s.v, offset);
    else
        a.v.add_mutual(&s.v, offset, len);
    AT(g, a.len);
    const bool in = g >= offset && g - offset < len;
    if (in)
        __qdv_assert(a.mem[g] == gf.add(a.old[g], s.old[g - offset]), "sums at the offset");
    else
        __qdv_assert(a.mem[g] == a.old[g], "the rest is unchanged");
    if (!self)
        b.unchanged();
}
template <typename T>
void c_hadamard(bool self)
{
    gf::Prime<T> gf(any_card<T>());
    Any<T> a(gf, "a"), b(gf, "b");
    Any<T>& s = self ? a : b;
    __qdv_assume(a.len == s.len);
    a.v.hadamard_mul(&s.v);
    AT(g, a.len);
    __qdv_assert(a.mem[g] == gf.mul(a.old[g], s.old[g]), "element-wise product");
    if (!self)
        b.unchanged();
}
// ------------------------------------------------------------------ polynomials
// of any length and degree: coefficients above the degree are zero
template <typename T>
struct AnyPoly {
    Raw<vec::Poly<T>> raw;
    int n, deg;
    T *mem, *old;
    AnyPoly(gf::Prime<T>& gf, const char* name, int lo = -1) : n(Int("n", 1, BIG)), deg(Int("deg", lo, BIG))
    {
        __qdv_assume(deg < n);
        new (&*raw) vec::Poly<T>(gf, n);
        mem = qdv_array<T>(n, name);
        __qdv_bound(mem, gf.card());
        old = qdv_clone(mem);
        raw->set_mem(mem, n);
        raw->buf = mem;
        raw->degree = deg;
    }
    vec::Poly<T>& operator*() { return *raw; }
};
template <typename T>
void c_poly_eval()
{
    gf::Prime<T> gf(any_card<T>());
    AnyPoly<T> p(gf, "p");
    const T x = below<T>("x", gf.card());
    const T r = (*p).eval(x);
    if (p.deg < 0) {
        __qdv_assert(r == 0, "the zero polynomial");
    } else {
        T want = p.old[p.deg];
        for (int i = p.deg - 1; i >= 0; i--)
            want = gf.add(gf.mul(want, x), p.old[i]);
        __qdv_assert(r == want, "the value at x, by Horner's rule");
    }
    AT(g, p.n);
    __qdv_assert(p.mem[g] == p.old[g] && (*p).get_deg() == p.deg, "evaluation changes nothing");
}
template <typename T>
void c_poly_derivative(bool lanes)
{
    gf::Prime<T> gf(any_card<T>());
    AnyPoly<T> p(gf, "p");
    if (lanes)
        (*p).derivative_nf4();
    else
        (*p).derivative();
    AT(g, p.n);
    __qdv_assert((*p).get_deg() == (p.deg < 0 ? -1 : p.deg - 1), "degree of the derivative");
    if (g < p.deg)
        __qdv_assert(p.mem[g] == gf.mul(T((g + 1) % gf.get_p()), p.old[g + 1]), "coefficient of the derivative");
    else
        __qdv_assert(p.mem[g] == (g == p.deg ? 0 : p.old[g]), "nothing above the degree");
}
template <typename T>
void c_poly_neg()
{
    gf::Prime<T> gf(any_card<T>());
    AnyPoly<T> p(gf, "p");
    (*p).neg();
    AT(g, p.n);
    __qdv_assert(p.mem[g] == (g <= p.deg ? gf.neg(p.old[g]) : p.old[g]) && (*p).get_deg() == p.deg, "every coefficient is negated");
}
template <typename T>
void c_poly_linear()
{
    gf::Prime<T> gf(any_card<T>());
    AnyPoly<T> p(gf, "p");
    const T c = below<T>("c", gf.card());
    __qdv_assume(p.deg < p.n - 1);
    if (p.deg >= 0)
        __qdv_assume(p.old[p.deg] > 0);
    (*p).mul_to_x_plus_coef(c);
    AT(g, p.n);
    __qdv_assert((*p).get_deg() == (p.deg < 0 ? -1 : p.deg + 1), "degree of the product");
    if (p.deg < 0 || g > p.deg + 1)
        __qdv_assert(p.mem[g] == p.old[g], "the rest is unchanged");
    else if (g == p.deg + 1)
        __qdv_assert(p.mem[g] == p.old[p.deg], "leading coefficient");
    else if (g > 0)
        __qdv_assert(p.mem[g] == gf.add(p.old[g - 1], gf.mul(p.old[g], c)), "coefficient of the product by x + c");
    else
        __qdv_assert(p.mem[g] == gf.mul(p.old[0], c), "constant coefficient");
}
template <typename T>
void c_poly_mul()
{
    gf::Prime<T> gf(any_card<T>());
    AnyPoly<T> p(gf, "p"), q(gf, "q");
    Int out("out", 0, BIG);
    __qdv_assume(out < p.n && out < q.n);
    (*p).mul(&*q, out);
    AT(g, p.n);
    if (g > out) {
        __qdv_assert(p.mem[g] == (g <= p.deg ? 0 : p.old[g]), "nothing above the degree asked");
    }
    const int d = (*p).get_deg();
    __qdv_assert(d >= -1 && d <= out && (d < 0 || p.mem[d] != 0), "degree of the product");
    Int k("k", 0, BIG);
    if (k < q.n)
        __qdv_assert(q.mem[k] == q.old[k], "the factor is unchanged");
}
template <typename T>
void c_poly_copy()
{
    gf::Prime<T> gf(any_card<T>());
    AnyPoly<T> p(gf, "p");
    AT(g, p.n);
    T* mem;
    {
        vec::Poly<T> q(*p);
        mem = q.get_mem();
        __qdv_assert(q.get_n() == p.n && q.get_deg() == p.deg && q.get(g) == p.old[g], "a copy has the same coefficients");
        __qdv_assert(!__qdv_same_object(mem, p.mem), "a copy has memory of its own");
        q.set(g, 0);
        __qdv_assert(p.mem[g] == p.old[g], "a copy leaves the source");
        q.zero_fill();
        __qdv_assert(q.get(g) == 0 && q.get_deg() == -1, "the zero polynomial");
    }
    __qdv_assert(__qdv_freed(mem), "released");
}
template <typename T>
void c_poly_set()
{
    gf::Prime<T> gf(any_card<T>());
    AnyPoly<T> p(gf, "p");
    const T c = below<T>("c", gf.card());
    Int e("e", 0, BIG);
    __qdv_assume(e < p.n);
    (*p).set(e, c);
    AT(g, p.n);
    __qdv_assert(p.mem[g] == (g == e ? c : p.old[g]), "one coefficient is set");
    __qdv_assert((*p).get_deg() == (c != 0 && e > p.deg ? int(e) : p.deg), "the degree follows");
}
#define ALL(N, T) \
    CONTRACT(mul_scalar_##N) { c_mul_scalar<T>(); } \
    CONTRACT(mul_beta_##N) { c_mul_beta<T>(); } \
    CONTRACT(neg_##N) { c_neg<T>(); } \
    CONTRACT(add_##N) { c_sum<T>(0, false); } \
    CONTRACT(add_self_##N) { c_sum<T>(0, true); } \
    CONTRACT(add_offset_##N) { c_sum<T>(1, false); } \
    CONTRACT(add_mutual_##N) { c_sum<T>(2, false); } \
    CONTRACT(add_mutual_offset_##N) { c_sum<T>(3, false); } \
    CONTRACT(add_mutual_range_##N) { c_sum<T>(4, false); } \
    CONTRACT(hadamard_##N) { c_hadamard<T>(false); } \
    CONTRACT(hadamard_self_##N) { c_hadamard<T>(true); } \
    CONTRACT(poly_eval_##N) { c_poly_eval<T>(); } \
    CONTRACT(poly_derivative_##N) { c_poly_derivative<T>(false); } \
    CONTRACT(poly_neg_##N) { c_poly_neg<T>(); } \
    CONTRACT(poly_linear_##N) { c_poly_linear<T>(); } \
    CONTRACT(poly_mul_##N) { c_poly_mul<T>(); } \
    CONTRACT(poly_copy_##N) { c_poly_copy<T>(); } \
    CONTRACT(poly_set_##N) { c_poly_set<T>(); }
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
