// GF(2^n): the operations as functions of the tables, for any tables; additions and buffers
#include "quadiron.h"
#include "property.h"
#include "qdv.h"
using namespace quadiron;
typedef unsigned __int128 u128;

// a real field of 16 elements that is then given the parameters of another
template <typename T>
struct Any {
    alignas(64) char mem[sizeof(gf::BinExtension<T>)];
    gf::BinExtension<T>* f;
    T card; // number of elements (0: all values of T)
    Any(unsigned n)
    {
        f = new (mem) gf::BinExtension<T>(4);
        f->n = T(n);
        f->restricted = n == 8 * sizeof(T);
        f->my_card = f->restricted ? T(~T(0)) : T(T(1) << (n % (8 * sizeof(T))));
        card = f->restricted ? 0 : f->my_card;
        f->tab_nb = n / 4 - 1;
        f->sgroup_nb = n / 8;
        f->first_bit = T(1) << (n - 1);
        if (n <= 16) {
            f->mul_type = gf::MUL_LOG_TAB;
            f->div_type = gf::DIV_LOG_TAB;
            f->inv_type = gf::INV_BY_DIV;
        } else {
            f->mul_type = gf::SPLIT_8_8;
            f->div_type = gf::DIV_BY_INV;
            f->inv_type = gf::INV_EXT_GCD;
        }
    }
    T elem(const char* name)
    {
        const T a = qdv_any<T>(name);
        __qdv_assume(card == 0 || a < card);
        return a;
    }
};
// tables of logarithms: log of an element other than 0 is below card-1
template <typename T>
struct Logs : Any<T> {
    T *log, *ilog;
    Logs(unsigned n) : Any<T>(n)
    {
        const size_t card = size_t(1) << n;
        log = this->f->gflog = qdv_array<T>(card, "log");
        ilog = this->f->gfilog = qdv_array<T>(card, "ilog");
        __qdv_bound(log, card - 1);
        __qdv_bound(ilog, card);
        __qdv_assume(log[1] == 0);
    }
};
template <typename T>
void c_log(unsigned n)
{
    Logs<T> s(n);
    const T a = s.elem("a"), b = s.elem("b");
    const uint64_t ord = (uint64_t(1) << n) - 1;
    __qdv_assert(s.f->add(a, b) == (a ^ b) && s.f->sub(a, b) == (a ^ b), "addition is exclusive or");
    __qdv_assert(s.f->mul(a, b) == (a == 0 || b == 0 ? 0 : s.ilog[(uint64_t(s.log[a]) + uint64_t(s.log[b])) % ord]), "the product has the sum of the logarithms");
    if (b != 0) {
        __qdv_assert(s.f->div(a, b) == (a == 0 ? 0 : s.ilog[(uint64_t(s.log[a]) + ord - uint64_t(s.log[b])) % ord]), "the quotient has the difference of the logarithms");
        __qdv_assert(s.f->inv(b) == s.ilog[(ord - uint64_t(s.log[b])) % ord], "the inverse has the opposite logarithm");
    }
    __qdv_assert(s.f->check(a), "an element");
    const T c = qdv_any<T>("c");
    __qdv_assert(s.f->check(c) == (s.card == 0 || c < s.card), "elements are the values below the cardinal");
    __qdv_assert(s.f->card_minus_one() == T(s.card - 1) && (s.card == 0 || s.f->card() == s.card), "cardinal");
    __qdv_assert(s.f->neg(a) == a, "every element is its own opposite");
}
// split tables: any contents
template <typename T>
void c_split(unsigned n)
{
    Any<T> s(n);
    T** tab[32];
    for (unsigned t = 0; t < n / 4 - 1; t++)
        tab[t] = reinterpret_cast<T**>(__qdv_bufs(256, 256 * sizeof(T), sizeof(T), 16, "split"));
    s.f->gfsplit = tab;
    const T a = s.elem("a"), b = s.elem("b");
    T want = 0;
    for (unsigned i = 0; i < n / 8; i++)
        for (unsigned j = 0; j < n / 8; j++)
            want ^= tab[i + j][uint8_t(a >> (8 * i))][uint8_t(b >> (8 * j))];
    __qdv_assert(s.f->mul(a, b) == want, "the product is the sum of the products of the bytes, at their degrees");
    __qdv_assert(s.f->add(a, b) == (a ^ b) && s.f->sub(a, b) == (a ^ b), "addition is exclusive or");
    __qdv_assert(s.f->neg(a) == a, "every element is its own opposite");
    __qdv_assert(s.f->check(a), "an element");
    const T c = qdv_any<T>("c");
    __qdv_assert(s.f->check(c) == (s.card == 0 || c < s.card), "elements are the values below the cardinal");
    __qdv_assert(s.f->card_minus_one() == T(s.card - 1) && (s.card == 0 || s.f->card() == s.card), "cardinal");
    // multiplication by x
    s.f->primitive_poly = qdv_any<T>("poly");
    const T top = T(T(a >> (n - 1)) & 1), low = T(T(a << 1) & (s.card ? T(s.card - 1) : T(~T(0))));
    __qdv_assert(s.f->_mul_by_two(a) == (top ? T(low ^ s.f->primitive_poly) : low), "multiplication by x");
}
// buffers of any length
template <typename T>
T op(const char* name, T a, T b) { return T(__qdv_uf(name, uint64_t(a), uint64_t(b))); }
#define MUL(T, s) extern "C" T spec_mul_##s(const void*, T a, T b) { return op<T>("mul" #s, a, b); }
MUL(uint16_t, 16) MUL(uint32_t, 32) MUL(uint64_t, 64)
extern "C" u128 spec_mul_128(const void*, u128 a, u128 b) { return op<u128>("mul128", a, b); }
template <typename T>
void c_bufs()
{
    Any<T> s(8);
    const size_t len = qdv_any<uint64_t>("len");
    __qdv_assume(len < (1ull << 40));
    T *x = qdv_array<T>(len, "x"), *y = qdv_array<T>(len, "y"), *z = qdv_array<T>(len, "z"), *u = qdv_array<T>(len, "u"), *v = qdv_array<T>(len, "v");
    __qdv_bound(x, 256);
    __qdv_bound(y, 256);
    __qdv_bound(u, 256);
    __qdv_bound(v, 256);
    T *x0 = qdv_clone(x), *y0 = qdv_clone(y), *u0 = qdv_clone(u), *v0 = qdv_clone(v);
    const size_t g = qdv_any<uint64_t>("g");
    __qdv_assume(g < len);
    const T a = s.elem("a");
    s.f->mul_coef_to_buf(a, x, z, len);
    __qdv_assert(z[g] == s.f->mul(a, x0[g]) && x[g] == x0[g], "mul_coef_to_buf: every product");
    s.f->sub_two_bufs(x, y, z, len);
    __qdv_assert(z[g] == (x0[g] ^ y0[g]) && x[g] == x0[g] && y[g] == y0[g], "sub_two_bufs: every difference");
    s.f->add_two_bufs(x, y, len);
    __qdv_assert(y[g] == (x0[g] ^ y0[g]) && x[g] == x0[g], "add_two_bufs: every sum");
    s.f->neg(len, x);
    __qdv_assert(x[g] == x0[g], "neg: unchanged");
    if (len < (1u << 31)) {
        s.f->hadamard_mul(int(len), u, v);
        __qdv_assert(u[g] == s.f->mul(u0[g], v0[g]) && v[g] == v0[g], "hadamard_mul: every product");
    }
}
CONTRACT(log_16_4) { c_log<uint16_t>(4); }
CONTRACT(log_16_8) { c_log<uint16_t>(8); }
CONTRACT(log_32_4) { c_log<uint32_t>(4); }
CONTRACT(log_32_8) { c_log<uint32_t>(8); }
CONTRACT(log_32_16) { c_log<uint32_t>(16); }
CONTRACT(log_64_8) { c_log<uint64_t>(8); }
CONTRACT(log_64_16) { c_log<uint64_t>(16); }
CONTRACT(log_32_1) { c_log<uint32_t>(1); }
CONTRACT(log_32_2) { c_log<uint32_t>(2); }
CONTRACT(log_32_3) { c_log<uint32_t>(3); }
CONTRACT(split_32_32) { c_split<uint32_t>(32); }
CONTRACT(split_64_32) { c_split<uint64_t>(32); }
CONTRACT(split_128_32) { c_split<u128>(32); }
CONTRACT(split_128_64) { c_split<u128>(64); }
CONTRACT(split_128_128) { c_split<u128>(128); }
CONTRACT(log_128_8) { c_log<u128>(8); }
CONTRACT(log_128_16) { c_log<u128>(16); }
CONTRACT(split_64_64) { c_split<uint64_t>(64); }
CONTRACT(bufs_16) { c_bufs<uint16_t>(); }
CONTRACT(bufs_32) { c_bufs<uint32_t>(); }
CONTRACT(bufs_64) { c_bufs<uint64_t>(); }
CONTRACT(bufs_128) { c_bufs<u128>(); }
// the tables of logarithms of the small fields: powers of x
template <typename T>
void c_tables(unsigned n, unsigned poly)
{
    gf::BinExtension<T> f = gf::create<gf::BinExtension<T>>(T(n));
    unsigned v = 1;
    for (unsigned e = 0; e < (1u << n) - 1; e++) {
        __qdv_assert(f.gfilog[e] == v && f.gflog[v] == e, "entry e of the inverse table is x^e, and the logarithm of x^e is e");
        v <<= 1;
        if (v >> n)
            v ^= poly;
    }
    __qdv_assert(v == 1 || n == 1, "x generates the group");
    __qdv_assert(f.mul_type == gf::MUL_LOG_TAB && f.div_type == gf::DIV_LOG_TAB && f.inv_type == gf::INV_BY_DIV && f.my_card == (1u << n) && f.n == n, "set up for tables of logarithms");
}
CONTRACT(tables_1) { c_tables<uint32_t>(1, 3); }
CONTRACT(tables_2) { c_tables<uint32_t>(2, 7); }
CONTRACT(tables_3) { c_tables<uint32_t>(3, 11); }
CONTRACT(tables_4) { c_tables<uint32_t>(4, 19); }
CONTRACT(tables_8) { c_tables<uint32_t>(8, 0x11d); }
CONTRACT(tables_64_8) { c_tables<uint64_t>(8, 0x11d); }
CONTRACT(tables_16) { c_tables<uint32_t>(16, 0x1100b); }
