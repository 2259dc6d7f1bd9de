// Scalar oracle for the fields of the library (kind 0: ring mod m, 1: GF(2^n), 2: NF4 lanes).
#pragma once
#include "common.h"
struct FO {
    std::string name; int kind = 0; uint64_t m = 0; int n = 0; hx::u128 p = 0, msk = 0; int lanes = 1;
    typedef hx::u128 E;
    static FO ring(uint64_t m) { FO o; o.name = "GF(" + hx::S(m) + ")"; o.m = m; return o; }
    static FO bin(int n) { FO o; o.name = "GF(2^" + std::to_string(n) + ")"; o.kind = 1; o.n = n; o.p = n == 1 ? 1 : n <= 4 ? 3 : n == 8 ? 0x1d : n == 16 ? 0x100b : n == 32 ? 0x8d : n == 64 ? 0x1b : 0x87; o.msk = n == 128 ? ~(E)0 : ((E)1 << n) - 1; return o; }
    static FO nf4(int n) { FO o; o.name = "NF4(" + std::to_string(n) + ")"; o.kind = 2; o.lanes = n; return o; }
    E lane(E a, E b, int op) const { E r = 0; for (int i = lanes - 1; i >= 0; i--) { uint64_t x = (uint32_t)(a >> 32 * i), y = (uint32_t)(b >> 32 * i), q = 65537; r = r << 16 << 16 | (op == 0 ? (x + y) % q : op == 1 ? (x + q - y) % q : op == 2 ? x * y % q : om::powm(x, q - 2, q)); } return r; }
    E add(E a, E b) const { return kind == 0 ? (E)om::addm(a, b, m) : kind == 1 ? a ^ b : lane(a, b, 0); }
    E sub(E a, E b) const { return kind == 0 ? (E)om::subm(a, b, m) : kind == 1 ? a ^ b : lane(a, b, 1); }
    E mul(E a, E b) const
    {
        if (kind == 0) return om::mulm(a, b, m);
        if (kind == 2) return lane(a, b, 2);
        E r = 0; for (int i = n - 1; i >= 0; i--) { bool c = r >> (n - 1) & 1; r = (r << 1) & msk; if (c) r ^= p; if (b >> i & 1) r ^= a; } return r;
    }
    E one() const { return kind == 2 ? rep(1) : 1; }
    E pow(E a, E e) const { E r = one(); while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; }
    E inv(E a) const { return kind == 0 ? pow(a, m - 2) : kind == 1 ? pow(a, msk - 1) : lane(a, a, 3); } // prime m only
    E top() const { return kind == 0 ? (E)(m - 1) : kind == 1 ? msk : rep(65536); }
    E rep(E v) const { E r = v; for (int i = 1; i < lanes; i++) r = r << 32 | v; return r; }
    E times(uint64_t k, E a) const { E r = 0; E b = a; while (k) { if (k & 1) r = add(r, b); b = add(b, b); k >>= 1; } return r; }
    E rnd() const
    {
        if (kind == 0) switch (hx::R(6)) { case 0: return m - 1; case 1: return 0; default: return hx::R(m); }
        if (kind == 1) { E v = ((E)hx::R() << 64 | hx::R()) & msk; return hx::coin(6) ? msk : hx::coin(7) ? 0 : v; }
        E r = 0; for (int i = 0; i < lanes; i++) r = r << 32 | (hx::coin(4) ? 65536 : hx::R(65537)); return r;
    }
    std::vector<E> rv(size_t k) const { std::vector<E> v(k); for (auto& x : v) x = rnd(); return v; }
    E eval(const std::vector<E>& c, E x) const { E r = 0; for (size_t i = c.size(); i-- > 0;) r = add(mul(r, x), c[i]); return r; }
    // rank of a matrix by elimination with this field's operations
    int rank(std::vector<std::vector<E>> a) const
    {
        int R = a.size(), C = R ? a[0].size() : 0, rk = 0;
        for (int c = 0; c < C && rk < R; c++) {
            int pr = rk; while (pr < R && a[pr][c] == 0) pr++;
            if (pr == R) continue;
            std::swap(a[pr], a[rk]); E iv = inv(a[rk][c]);
            for (auto& x : a[rk]) x = mul(x, iv);
            for (int i = 0; i < R; i++) if (i != rk && a[i][c]) { E f = a[i][c]; for (int j = c; j < C; j++) a[i][j] = sub(a[i][j], mul(f, a[rk][j])); }
            rk++;
        }
        return rk;
    }
};
