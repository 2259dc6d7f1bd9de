// Scalar arithmetic modulo any modulus of the element type.
#include "quadiron.h"
#include "gf_prime.h"
#include "qdv.h"
using namespace quadiron;

template <typename T>
struct Ring {
    T card;
    gf::Prime<T> gf;
    Ring() : card(any_card()), gf(card) {}
    static T any_card()
    {
        T card = qdv_any<T>("card");
        __qdv_assume(card >= 2);
        return card;
    }
    T below(const char* name) const
    {
        T x = qdv_any<T>(name);
        __qdv_assume(x < card);
        return x;
    }
};
// the mathematical results, as numbers below the modulus
template <typename T>
T m_add(T card, T a, T b)
{
    DoubleSizeVal<T> s = DoubleSizeVal<T>(a) + b;
    return T(s >= card ? s - card : s);
}
template <typename T>
T m_sub(T card, T a, T b)
{
    return a < b ? T(T(card - b) + a) : T(a - b);
}
template <typename T>
T m_mul(T card, T a, T b)
{
    return T(DoubleSizeVal<T>(a) * b % card);
}
#define EACH(name)                                                                                                     \
    CONTRACT(name##_16) { c_##name<uint16_t>(); }                                                                      \
    CONTRACT(name##_32) { c_##name<uint32_t>(); }                                                                      \
    CONTRACT(name##_64) { c_##name<uint64_t>(); }

template <typename T>
void c_check()
{
    Ring<T> r;
    T x = qdv_any<T>("x");
    __qdv_assert(r.gf.check(x) == (x < r.card), "check tells elements from the rest");
    __qdv_assert(r.gf.card() == r.card && r.gf.card_minus_one() == r.card - 1, "card");
    __qdv_assert(r.gf.get_p() == r.card && r.gf.get_n() == 1, "characteristic and degree");
    __qdv_assert(r.gf.get_unit() == 1 && (x >= r.card || r.gf.replicate(x) == x), "unit");
}
EACH(check)
template <typename T>
void c_add()
{
    Ring<T> r;
    T a = r.below("a"), b = r.below("b");
    __qdv_assert(r.gf.add(a, b) == m_add(r.card, a, b), "add is the sum modulo card");
}
EACH(add)
template <typename T>
void c_sub()
{
    Ring<T> r;
    T a = r.below("a"), b = r.below("b");
    __qdv_assert(r.gf.sub(a, b) == m_sub(r.card, a, b), "sub is the difference modulo card");
    __qdv_assert(r.gf.neg(a) == (a == 0 ? T(0) : T(r.card - a)), "neg is the opposite modulo card");
}
EACH(sub)
template <typename T>
void c_mul()
{
    Ring<T> r;
    T a = r.below("a"), b = r.below("b");
    T c = r.gf.mul(a, b);
    __qdv_assert(c == m_mul(r.card, a, b), "mul is the product modulo card");
    __qdv_assert(c < r.card, "mul is below card");
}
EACH(mul)

// contract of arith::extended_gcd(a, card, coef, nullptr) for a prime to card: coef[0] is an
// inverse of a modulo card, between -card and card (proved of the code in C13)
template <typename T>
SignedDoubleSizeVal<T> egcd(SignedDoubleSizeVal<T> a, SignedDoubleSizeVal<T> b, SignedDoubleSizeVal<T>* coef, SignedDoubleSizeVal<T>* quot)
{
    T s = qdv_any<T>("bezout");
    bool minus = qdv_any<bool>("bezout_negative");
    __qdv_assert(quot == nullptr && coef != nullptr && a > 0 && a < b, "precondition of extended_gcd");
    __qdv_assume(s != 0 && s < T(b) && m_mul<T>(T(b), T(a), minus ? T(T(b) - s) : s) == 1);
    coef[0] = minus ? -SignedDoubleSizeVal<T>(s) : SignedDoubleSizeVal<T>(s);
    return 1;
}
extern "C" {
SignedDoubleSizeVal<uint16_t> spec_egcd_16(SignedDoubleSizeVal<uint16_t> a, SignedDoubleSizeVal<uint16_t> b, SignedDoubleSizeVal<uint16_t>* c, SignedDoubleSizeVal<uint16_t>* q) { return egcd<uint16_t>(a, b, c, q); }
SignedDoubleSizeVal<uint32_t> spec_egcd_32(SignedDoubleSizeVal<uint32_t> a, SignedDoubleSizeVal<uint32_t> b, SignedDoubleSizeVal<uint32_t>* c, SignedDoubleSizeVal<uint32_t>* q) { return egcd<uint32_t>(a, b, c, q); }
SignedDoubleSizeVal<uint64_t> spec_egcd_64(SignedDoubleSizeVal<uint64_t> a, SignedDoubleSizeVal<uint64_t> b, SignedDoubleSizeVal<uint64_t>* c, SignedDoubleSizeVal<uint64_t>* q) { return egcd<uint64_t>(a, b, c, q); }
}
template <typename T>
void c_inv()
{
    Ring<T> r;
    T a = r.below("a");
    __qdv_assume(a != 0);
    T i = r.gf.inv(a);
    __qdv_assert(i < r.card && m_mul(r.card, a, i) == 1, "a * inv(a) is 1 modulo card");
}
EACH(inv)

// contract of inv, as a function of its argument
template <typename T>
T inv_of(T card, T a)
{
    T i = T(__qdv_uf("inv", uint64_t(card), uint64_t(a)));
    __qdv_assume(i < card && m_mul<T>(card, a, i) == 1);
    return i;
}
extern "C" {
uint16_t spec_inv_16(const gf::RingModN<uint16_t>* g, uint16_t a) { return inv_of<uint16_t>(g->_card, a); }
uint32_t spec_inv_32(const gf::RingModN<uint32_t>* g, uint32_t a) { return inv_of<uint32_t>(g->_card, a); }
uint64_t spec_inv_64(const gf::RingModN<uint64_t>* g, uint64_t a) { return inv_of<uint64_t>(g->_card, a); }
}
template <typename T>
void c_div()
{
    Ring<T> r;
    T a = r.below("a"), b = r.below("b");
    __qdv_assume(b != 0);
    __qdv_assert(r.gf.div(a, b) == m_mul(r.card, a, inv_of<T>(r.card, b)), "div is the product by the inverse");
}
EACH(div)

// powers: pow(a, e) = pow(a, e/2)^2 * a^(e mod 2), pow(a, 0) = 1
template <typename T>
T pow_of(T card, T a, T e)
{
    T p = T(__qdv_uf("pow", uint64_t(card), uint64_t(a), uint64_t(e)));
    __qdv_assume(p < card);
    return p;
}
template <typename T>
T pow_def(T card, T a, T e)
{
    if (e == 0)
        return 1;
    if (e == 1)
        return a;
    T h = pow_of<T>(card, a, e / 2);
    T s = m_mul<T>(card, h, h);
    return e % 2 ? m_mul<T>(card, s, a) : s;
}
extern "C" {
uint16_t spec_exp_16(const gf::RingModN<uint16_t>* g, uint16_t a, uint16_t e) { return pow_of<uint16_t>(g->_card, a, e); }
uint32_t spec_exp_32(const gf::RingModN<uint32_t>* g, uint32_t a, uint32_t e) { return pow_of<uint32_t>(g->_card, a, e); }
uint64_t spec_exp_64(const gf::RingModN<uint64_t>* g, uint64_t a, uint64_t e) { return pow_of<uint64_t>(g->_card, a, e); }
}
template <typename T>
void c_exp()
{
    Ring<T> r;
    T a = r.below("a"), e = r.below("e");
    T p = r.gf.exp(a, e);
    __qdv_assert(p == pow_def<T>(r.card, a, e) && p < r.card, "exp is the power modulo card");
}
EACH(exp)
template <typename T>
void c_exp_quick()
{
    Ring<T> r;
    T a = r.below("a"), e = qdv_any<T>("e");
    T p = r.gf.exp_quick(a, e);
    __qdv_assert(p == pow_def<T>(r.card, a, e) && p < r.card, "exp_quick is the power modulo card, for any exponent");
}
EACH(exp_quick)
// Fermat: a^(p-2) is what inv_exp returns
template <typename T>
void c_inv_exp()
{
    Ring<T> r;
    T a = r.below("a");
    __qdv_assert(r.gf.inv_exp(a) == pow_def<T>(r.card, a, T(r.card - 2)), "inv_exp is the power card-2");
}
EACH(inv_exp)
template <typename T>
void c_log()
{
    Ring<T> r;
    T a = r.below("a"), y = qdv_any<T>("y"), g = r.below("g");
    bool found = true;
    T x = 0;
    try {
        x = r.gf.log(a, y);
    } catch (const NoSolution&) {
        found = false;
    }
    if (found)
        __qdv_assert(x < r.card && pow_of<T>(r.card, a, x) == y, "log gives back its argument");
    else
        __qdv_assert(g == 0 || pow_of<T>(r.card, a, g) != y, "log refuses only where there is no logarithm");
}
EACH(log)
