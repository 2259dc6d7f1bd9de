// Matrices: row and column operations for any number of columns or rows, products, inverse, generator matrices
#include "quadiron.h"
#include "gf_prime.h"
#include "gf_bin_ext.h"
#include "vec_matrix.h"
#include "qdv.h"
using namespace quadiron;
#include "bufs.h"

static int dim(const char* name)
{
    const int n = qdv_any<int>(name);
    __qdv_assume(n >= 1 && n < (1 << 20));
    return n;
}
template <typename T>
T any_card()
{
    const T card = qdv_any<T>("card");
    __qdv_assume(card >= 2);
    return card;
}
template <typename T>
T below(const char* name, T card)
{
    const T x = qdv_any<T>(name);
    __qdv_assume(x < card);
    return x;
}
// a matrix of any contents
template <typename T>
struct AnyMatrix {
    vec::Matrix<T> m;
    T* old;
    AnyMatrix(const gf::RingModN<T>& gf, int rows, int cols, const char* name) : m(gf, rows, cols)
    {
        delete[] m.mem;
        m.mem = qdv_array<T>(size_t(rows) * cols, name);
        if (gf.card())
            __qdv_bound(m.mem, gf.card());
        old = qdv_clone(m.mem);
    }
    T was(int i, int j) { return old[i * m.n_cols + j]; }
    ~AnyMatrix() { m.mem = nullptr; }
};
// ---- row operations: rows a and b of 3, any number of columns
enum { SWAP, SCALE, ADD };
template <typename T>
void c_row(int what, int a, int b)
{
    gf::Prime<T> gf(any_card<T>());
    const int cols = dim("cols");
    AnyMatrix<T> x(gf, 3, cols, "x");
    const T f = below<T>("f", gf.card());
    if (what == SWAP)
        x.m.swap_rows(a, b);
    else if (what == SCALE)
        x.m.mul_row(a, f);
    else
        x.m.add_rows(a, b, f);
    const int g = qdv_any<int>("g");
    __qdv_assume(g >= 0 && g < cols);
    for (int i = 0; i < 3; i++) {
        const T old = x.was(i, g);
        const T want = what == SWAP ? (i == a ? x.was(b, g) : i == b ? x.was(a, g) : old)
                       : what == SCALE ? (i == a ? gf.mul(old, f) : old)
                                       : (i == b ? gf.add(old, gf.mul(x.was(a, g), f)) : old);
        __qdv_assert(x.m.get(i, g) == want, "the row operation is applied to every column, the other rows are unchanged");
    }
}
#define ROWS(T, t)                                          \
    CONTRACT(swap01_##t) { c_row<T>(SWAP, 0, 1); }          \
    CONTRACT(swap21_##t) { c_row<T>(SWAP, 2, 1); }          \
    CONTRACT(swap11_##t) { c_row<T>(SWAP, 1, 1); }          \
    CONTRACT(scale0_##t) { c_row<T>(SCALE, 0, 0); }         \
    CONTRACT(scale2_##t) { c_row<T>(SCALE, 2, 2); }         \
    CONTRACT(addrow02_##t) { c_row<T>(ADD, 0, 2); }         \
    CONTRACT(addrow21_##t) { c_row<T>(ADD, 2, 1); }
ROWS(uint16_t, u16)
ROWS(uint32_t, u32)
ROWS(uint64_t, u64)
// ---- column operations: 3 columns, any number of rows
template <typename T>
void c_col(int a, int b)
{
    gf::Prime<T> gf(any_card<T>());
    const int rows = dim("rows");
    __qdv_assume(rows >= 3);
    AnyMatrix<T> x(gf, rows, 3, "x");
    const int g = qdv_any<int>("g");
    __qdv_assume(g >= 0 && g < rows);
    T want[3];
    for (int j = 0; j < 3; j++)
        want[j] = x.was(g, j);
    if (a == b) {
        want[a] = gf.mul(gf.inv(x.was(a, a)), x.was(g, a));
        x.m.ec_transform1(a);
    } else {
        want[b] = gf.sub(x.was(g, b), gf.mul(x.was(a, b), x.was(g, a)));
        x.m.ec_transform2(a, b);
    }
    for (int j = 0; j < 3; j++)
        __qdv_assert(x.m.get(g, j) == want[j], "the column operation is applied to every row, the other columns are unchanged");
}
#define COLS(T, t)                               \
    CONTRACT(col0_##t) { c_col<T>(0, 0); }       \
    CONTRACT(col2_##t) { c_col<T>(2, 2); }       \
    CONTRACT(col01_##t) { c_col<T>(0, 1); }      \
    CONTRACT(col20_##t) { c_col<T>(2, 0); }
COLS(uint16_t, u16)
COLS(uint32_t, u32)
COLS(uint64_t, u64)
// ---- zero_fill, set, get
template <typename T>
void c_zero(int rows)
{
    gf::Prime<T> gf(any_card<T>());
    const int cols = dim("cols");
    AnyMatrix<T> x(gf, rows, cols, "x");
    x.m.zero_fill();
    const int g = qdv_any<int>("g");
    __qdv_assume(g >= 0 && g < cols);
    for (int i = 0; i < rows; i++)
        __qdv_assert(x.m.get(i, g) == 0, "every entry is zero");
    const T v = below<T>("v", gf.card());
    x.m.set(rows - 1, g, v);
    __qdv_assert(x.m.get(rows - 1, g) == v && (rows < 2 || x.m.get(0, g) == 0), "set changes that entry only");
    __qdv_assert(x.m.get_n_rows() == rows && x.m.get_n_cols() == cols, "dimensions");
}
CONTRACT(zero1_u32) { c_zero<uint32_t>(1); }
CONTRACT(zero3_u32) { c_zero<uint32_t>(3); }
CONTRACT(zero3_u64) { c_zero<uint64_t>(3); }
// ---- matrix times vector
template <typename T>
void c_mul(gf::RingModN<T>& gf, uint64_t ring, int rows, int cols)
{
    AnyMatrix<T> x(gf, rows, cols, "x");
    AnyVector<T> v(gf, cols, "v", gf.card()), y(gf, rows, "y");
    x.m.mul(&y.v, &v.v);
    for (int i = 0; i < rows; i++) {
        T s = gf.mul(x.was(i, cols - 1), v.old[cols - 1]);
        for (int j = cols - 1; j-- > 0;)
            s = gf.add(gf.mul(x.was(i, j), v.old[j]), s);
        ring_eq(y.p[i], s, ring, "entry of the product");
        for (int j = 0; j < cols; j++)
            __qdv_assert(x.m.get(i, j) == x.was(i, j) && v.p[j] == v.old[j], "the operands are unchanged");
    }
}
static const uint64_t BIN = 1ull << 63;
#define MUL(r, c)                                                                                                                   \
    CONTRACT(mul_##r##_##c) { gf::Prime<uint32_t> gf(65537); c_mul<uint32_t>(gf, 65537, r, c); }                                     \
    CONTRACT(mul_bin_##r##_##c) { gf::BinExtension<uint32_t> gf(8); c_mul<uint32_t>(gf, BIN | 8, r, c); }
MUL(1, 1) MUL(1, 4) MUL(3, 1) MUL(2, 3) MUL(3, 2) MUL(4, 4) MUL(5, 7) MUL(8, 8)
// ---- inverse: given the reduced form, the result is its right half, and a left half that is not the identity is refused
static void* reduced;
template <typename T>
void spec_rref(vec::Matrix<T>* m, T* const input)
{
    const int n = m->n_rows;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            __qdv_assert(m->get(i, j) == input[i * n + j], "the matrix is reduced");
            __qdv_assert(m->get(i, n + j) == (i == j), "next to the identity");
        }
    for (int i = 0; i < 2 * n * n; i++)
        m->mem[i] = static_cast<T*>(reduced)[i];
}
static void* input;
extern "C" void spec_rref_u32(vec::Matrix<uint32_t>* m) { spec_rref<uint32_t>(m, static_cast<uint32_t*>(input)); }
extern "C" void spec_rref_u64(vec::Matrix<uint64_t>* m) { spec_rref<uint64_t>(m, static_cast<uint64_t*>(input)); }
template <typename T>
void c_inv(int n)
{
    gf::Prime<T> gf(any_card<T>());
    AnyMatrix<T> x(gf, n, n, "x");
    T* r = qdv_array<T>(2 * n * n, "reduced");
    __qdv_bound(r, gf.card());
    reduced = r;
    input = x.old;
    bool ident = true, refused = false;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            if (r[i * 2 * n + j] != (i == j))
                ident = false;
    try {
        x.m.inv();
    } catch (const DomainError&) {
        refused = true;
    }
    __qdv_assert(refused == !ident, "refused exactly when the left half is not the identity");
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            __qdv_assert(x.m.get(i, j) == (refused ? x.was(i, j) : r[i * 2 * n + n + j]), "the inverse is the right half, a refused matrix is unchanged");
}
CONTRACT(inv_1_u32) { c_inv<uint32_t>(1); }
CONTRACT(inv_2_u32) { c_inv<uint32_t>(2); }
CONTRACT(inv_3_u32) { c_inv<uint32_t>(3); }
CONTRACT(inv_4_u64) { c_inv<uint64_t>(4); }
// ---- generator matrices (no input): G * (top of the Vandermonde matrix) = its bottom
template <typename T>
void c_vander(gf::RingModN<T>& gf, int rows, int cols)
{
    vec::Matrix<T> g(gf, rows, cols), v(gf, rows + cols, cols);
    g.vandermonde_suitable_for_ec();
    v.vandermonde();
    for (int i = 0; i < rows + cols; i++) {
        T w = 1;
        for (int j = 0; j < cols; j++) {
            __qdv_assert(v.get(i, j) == w, "entry i, j of the Vandermonde matrix is i^j");
            w = gf.mul(w, T(i));
        }
    }
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++) {
            T s = 0;
            for (int l = 0; l < cols; l++)
                s = gf.add(s, gf.mul(g.get(i, l), v.get(l, j)));
            __qdv_assert(s == v.get(cols + i, j), "the generator is the Vandermonde matrix after column operations that make its top the identity");
        }
}
// entry i, j is a_i b_j / (i + (rows + j)) with non-zero a_i, b_j; the nodes are distinct
template <typename T>
void c_cauchy(gf::RingModN<T>& gf, int rows, int cols)
{
    vec::Matrix<T> g(gf, rows, cols);
    g.cauchy();
    auto c = [&](int i, int j) { return gf.inv(gf.add(T(i), T(rows + j))); };
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++) {
            __qdv_assert(gf.add(T(i), T(rows + j)) != 0, "distinct nodes");
            const T a = gf.div(c(0, 0), c(i, 0)), b = gf.inv(c(0, j));
            __qdv_assert(g.get(i, j) == gf.mul(gf.mul(i ? gf.mul(a, c(0, 0)) : c(0, 0), b), i ? gf.div(c(i, j), c(0, 0)) : gf.div(c(0, j), c(0, 0))), "a Cauchy matrix with scaled rows and columns");
        }
}
#define GEN(m, k)                                                                                          \
    CONTRACT(vander_8_##m##_##k) { gf::BinExtension<uint32_t> gf(8); c_vander<uint32_t>(gf, m, k); }       \
    CONTRACT(vander_p_##m##_##k) { gf::Prime<uint32_t> gf(65537); c_vander<uint32_t>(gf, m, k); }          \
    CONTRACT(cauchy_8_##m##_##k) { gf::BinExtension<uint32_t> gf(8); c_cauchy<uint32_t>(gf, m, k); }       \
    CONTRACT(cauchy_32_##m##_##k) { gf::BinExtension<uint64_t> gf(32); c_cauchy<uint64_t>(gf, m, k); }
GEN(1, 1) GEN(1, 3) GEN(3, 1) GEN(2, 2) GEN(3, 2) GEN(2, 5) GEN(4, 4) GEN(6, 6)
