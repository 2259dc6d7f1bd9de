// C13: number-theory helpers against independent definitions.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
using hx::u128; using hx::s128; using hx::SC;
typedef uint64_t u64;
template <typename T> T rnd() { u128 v = (u128)hx::R() << 64 | hx::R(); v = (T)v; return (T)(v >> hx::R(sizeof(T) * 8)); }
static bool isq(u128 r, u128 n) { return r * r <= n && (r + 1 > 0xffffffffffffffffull ? true : (r + 1) * (r + 1) > n); }
template <typename T> void sq(T n) { hx::at("sqrt<%d>(%s)", (int)sizeof(T) * 8, SC(n)); u128 r = arith::sqrt<T>(n); CHECK(r <= 0xffffffffffffffffull && isq(r, n), "returned %s", SC(r)); }
template <typename T> void sqs()
{
    for (unsigned i = 0; i < 70000; i++) { if (sizeof(T) > 2 || i < 65536) sq<T>((T)i); }
    for (int b = 0; b < (int)sizeof(T) * 8; b++) for (int d = -2; d <= 2; d++) { T v = (T)(((u128)1 << b) + d); if (v) sq<T>(v); }
    for (int i = 0; i < 3000 * hx::scale(); i++) { T r = (T)(rnd<T>() & (((u128)1 << (sizeof(T) * 4)) - 1)); T q = (T)((u128)r * r); sq<T>(q); if (q) sq<T>((T)(q - 1)); sq<T>((T)(q + 1)); sq<T>(rnd<T>()); }
    for (int d = 0; d < 5; d++) sq<T>((T)(~(T)0 - d));
}
SEC(sqrt) { sqs<uint16_t>(); sqs<uint32_t>(); sqs<u64>(); sqs<__uint128_t>(); }
SEC(powers2) {
    auto one = [](int n) {
        hx::at("powers of two, n=%d", n);
        int l = 31 - __builtin_clz((unsigned)n);
        CHK(arith::log2<uint32_t>(n) == l); CHK(arith::log2<u64>(n) == l);
        bool p = (1u << l) == (unsigned)n;
        CHK(arith::is_power_of_2<uint32_t>(n) == p); CHK(arith::is_power_of_2<u64>(n) == p);
        if (n <= (1 << 30)) { CHK(arith::ceil2<uint32_t>(n) == (p ? (uint32_t)n : 2u << l)); CHK(arith::ceil2<u64>(n) == (p ? (u64)n : 2ull << l)); CHK(arith::ceil2<__uint128_t>(n) == (p ? (u64)n : 2ull << l)); }
    };
    for (int n = 1; n < 70000; n++) one(n);
    for (int b = 0; b < 31; b++) for (int d = -2; d <= 2; d++) { long v = (1l << b) + d; if (v > 0 && v < (1l << 31)) one((int)v); }
    for (int i = 0; i < 5000; i++) one(1 + (int)hx::R(0x7ffffffe));
    for (int b = 0; b < 31; b++) { hx::at("exp2(%d)", b); CHK(arith::exp2<uint32_t>(b) == 1 << b); CHK(arith::exp2<u64>(b) == 1 << b); }
    for (int n : {0, -1, -2, -4, -7, (int)0x80000000}) { hx::at("is_power_of_2(%d)", n); CHK(!arith::is_power_of_2<uint32_t>(n)); }
    hx::at("log2(0)"); bool ex = false; try { arith::log2<uint32_t>(0); } catch (const DomainError&) { ex = true; } CHK(ex);
}
template <typename T> void exps()
{
    u128 mx = ~(T)0;
    for (u64 b = 0; b < 70; b++) { u128 v = 1; for (unsigned e = 0; e < 130; e++) { hx::at("exp<%d>(%s,%u)", (int)sizeof(T) * 8, SC(b), e); CHK((u128)arith::exp<T>((T)b, (T)e) == v); if (b && v > mx / b) break; v *= b; } }
    for (int i = 0; i < 500; i++) { T b = rnd<T>(); u128 v = 1; for (unsigned e = 0; e < 8; e++) { hx::at("exp<%d>(%s,%u)", (int)sizeof(T) * 8, SC(b), e); CHK((u128)arith::exp<T>(b, (T)e) == v); if (b && v > mx / b) break; v *= b; } }
}
template <typename T> void expm()
{
    for (int i = 0; i < 4000 * hx::scale(); i++) {
        T b = rnd<T>(), e = rnd<T>(), m = rnd<T>(); if (i % 5 == 0) m = (T)(~(T)0 - hx::R(50)); if (i % 7 == 0) b = (T)(m - 1); if (i % 11 == 0) e = (T)hx::R(3);
        if (!m) m = 1;
        hx::at("exp_mod<%d>(%s,%s,%s)", (int)sizeof(T) * 8, SC(b), SC(e), SC(m)); u128 r = arith::exp_mod<T>(b, e, m);
        CHECK(r == (e == 0 && m != 1 ? 1 : om::powm((u64)b, e, (u64)m)), "returned %s", SC(r));
    }
    for (u64 m = 1; m < 40; m++) for (u64 b = 0; b < 45; b++) for (u64 e = 0; e < 12; e++) { hx::at("exp_mod(%d,%d,%d)", (int)b, (int)e, (int)m); CHK((u64)arith::exp_mod<T>((T)b, (T)e, (T)m) == om::powm(b, e, m)); }
}
SEC(exp) { exps<uint32_t>(); exps<u64>(); expm<uint16_t>(); expm<uint32_t>(); expm<u64>(); }
template <typename T, typename ST> void eg(ST a, ST b)
{
    hx::at("extended_gcd<%d>(%s,%s)", (int)sizeof(T) * 8, SC(a), SC(b));
    ST bz[2] = {77, 77}, q[2] = {77, 77};
    ST g = arith::extended_gcd<T>(a, b, bz, q);
    u64 og = om::gcd((u64)a, (u64)b);
    CHECK((u128)g == og, "gcd %s", SC((u128)g));
    CHK((s128)bz[0] * (s128)a + (s128)bz[1] * (s128)b == (s128)g);
    if (g) { s128 q0 = q[0] < 0 ? -(s128)q[0] : (s128)q[0], q1 = q[1] < 0 ? -(s128)q[1] : (s128)q[1]; CHK(q0 * (s128)g == (s128)a && q1 * (s128)g == (s128)b); }
    CHK(arith::extended_gcd<T>(a, b, bz, nullptr) == g); CHK(arith::extended_gcd<T>(a, b, nullptr, nullptr) == g); CHK(arith::extended_gcd<T>(a, b, nullptr, q) == g);
    if ((ST)(T)a == a && (ST)(T)b == b) CHK((u128)arith::gcd<T>((T)a, (T)b) == og);
}
SEC(gcds) {
    for (int a = 0; a < 150; a++) for (int b = 0; b < 150; b++) { if (a || b) eg<uint32_t, int64_t>(a, b); }
    for (int i = 0; i < 8000 * hx::scale(); i++) {
        uint32_t a = rnd<uint32_t>(), b = rnd<uint32_t>(); eg<uint32_t, int64_t>(a, b); eg<uint16_t, int32_t>(a & 0xffff, b & 0xffff);
        u64 c = rnd<u64>(), d = rnd<u64>(); eg<u64, s128>(c, d); u64 k = 1 + hx::R(1000); eg<u64, s128>((u64)(uint32_t)a * k, (u64)(uint32_t)b * k);
        { int64_t A = (int64_t)(rnd<u64>() >> (1 + hx::R(63))), B = (int64_t)(rnd<u64>() >> (1 + hx::R(63))), C = A / (1 + (int64_t)hx::R(7)) * 3 % (A ? A : 1);
          if (A || B) { eg<uint32_t, int64_t>(A, B); eg<uint16_t, int32_t>((int32_t)(A & 0x7fffffff), (int32_t)(B & 0xff)); } if (A || C) eg<uint32_t, int64_t>(A, C); }
        hx::at("gcd<u64>(%s,%s)", SC(c), SC(d)); CHK(arith::gcd<u64>(c, d) == om::gcd(c, d));
        CHK(arith::gcd<__uint128_t>(c, d) == om::gcd(c, d)); CHK(arith::gcd<int>((int)(a >> 1), (int)(b >> 1)) == (int)om::gcd(a >> 1, b >> 1));
    }
    u64 f0 = 1, f1 = 1; while (f1 < (1ull << 62)) { u64 t = f0 + f1; f0 = f1; f1 = t; eg<u64, s128>(f1, f0); if (f1 >> 32 == 0) eg<uint32_t, int64_t>(f0, f1); }
    for (u64 x : std::vector<u64>{1, 2, 0xffffffff, 0xfffffffe, 0x80000000}) for (u64 y : std::vector<u64>{1, 0xffffffff, 0xfffffffb, 0x7fffffff}) eg<uint32_t, int64_t>(x, y);
    for (int i = 0; i < 63; i++) for (int j = 0; j < 8; j++) { int64_t A = (int64_t)((1ull << i) + (1ull << j) - 1 - (i == j)); for (int64_t B : {int64_t(0), int64_t(1), int64_t(2), int64_t(3), int64_t(7), int64_t(65537), int64_t(0xffffffff)}) if (A || B) { eg<uint32_t, int64_t>(A, B); eg<uint32_t, int64_t>(B, A); } }
}
template <typename T> void crt()
{
    for (int i = 0; i < 4000 * hx::scale(); i++) {
        std::vector<T> n, a; u128 prod = 1; int k = 1 + hx::R(5);
        for (int t = 0; t < 60 && (int)n.size() < k; t++) {
            T m = (T)(2 + (rnd<T>() >> (hx::R(sizeof(T) * 8)))); if (m < 2 || prod * m > (u128)(~(T)0) / (i % 2 ? 1 : 2)) continue;
            bool ok = true; for (T x : n) ok = ok && om::gcd((u64)x, (u64)m) == 1; if (!ok) continue;
            n.push_back(m); prod *= m;
        }
        if (n.empty()) continue;
        for (T m : n) a.push_back((T)(hx::coin(4) ? m - 1 : hx::R((u64)m)));
        hx::at("chinese_remainder<%d> a=%s n=%s", (int)sizeof(T) * 8, hx::LST(a).c_str(), hx::LST(n).c_str());
        auto n0 = n, a0 = a;
        T x = arith::chinese_remainder<T>((int)n.size(), a.data(), n.data());
        CHECK((u128)x < prod, "returned %s", SC(x));
        for (size_t j = 0; j < n.size(); j++) CHECK(x % n0[j] == a0[j], "returned %s", SC(x));
        CHK(n0 == n && a0 == a);
    }
}
SEC(chinese) { crt<uint32_t>(); crt<u64>(); }
static int jac_ref(s128 n, u64 m) { // product over prime factors of Legendre symbols (Euler's criterion)
    int r = 1; s128 q = n % (s128)m; if (q < 0) q += m;
    for (auto& f : om::factor(m)) { u64 p = f.first; u64 l = om::powm((u64)(q % p), (p - 1) / 2, p); int s = l == 0 ? 0 : l == 1 ? 1 : -1; for (int i = 0; i < f.second; i++) r *= s; }
    return r;
}
SEC(jacobi) {
    for (int m = 1; m < 160; m += 2) for (int n = -170; n < 330; n++) { hx::at("jacobi(%d,%d)", n, m); int j = arith::jacobi<uint32_t>(n, m); CHECK(j == jac_ref(n, m), "returned %d", j); j = arith::jacobi<u64>(n, m); CHECK(j == jac_ref(n, m), "64-bit returned %d", j); }
    for (int i = 0; i < 1500 * hx::scale(); i++) {
        u64 m = (rnd<uint32_t>() | 1); int64_t n = (int64_t)rnd<uint32_t>() * (hx::coin(4) ? -1 : 1);
        hx::at("jacobi(%lld,%llu)", (long long)n, (unsigned long long)m); int j = arith::jacobi<uint32_t>(n, m); CHECK(j == jac_ref(n, m), "returned %d", j);
    }
    for (int64_t m : std::vector<int64_t>{0, 2, 4, 100, -1, -3, -2, -7}) { hx::at("jacobi(3,%d) is refused", (int)m); bool ex = false; try { arith::jacobi<uint32_t>(3, m); } catch (const DomainError&) { ex = true; } CHK(ex); }
}
SEC(primes) {
    for (unsigned n = 0; n < 70000; n++) { hx::at("is_prime(%u)", n); bool w = om::prime(n); CHK(arith::is_prime<uint32_t>(n) == w); if (n < 3000) { CHK(arith::is_prime<u64>(n) == w); CHK(arith::is_prime<__uint128_t>(n) == w); } }
    for (int i = 0; i < 400; i++) { uint32_t n = rnd<uint32_t>(); if (i % 3 == 0) n |= 1; hx::at("is_prime(%u)", n); CHK(arith::is_prime<uint32_t>(n) == om::prime(n)); }
    for (uint32_t n : std::vector<uint32_t>{4294967291u, 4294967295u, 4294836225u, 2147483647u, 4294049777u, 65521u * 65521u, 65519u * 65521u}) { hx::at("is_prime(%u)", n); CHK(arith::is_prime<uint32_t>(n) == om::prime(n)); CHK(arith::is_prime<u64>(n) == om::prime(n)); }
    // probabilistic test never rejects a prime, and rejects these composites
    auto rf = +[](uint32_t n) -> uint32_t { return 1 + (uint32_t)hx::R(n - 1); };
    for (uint32_t n = 3; n < 3000; n += 2) { hx::at("solovay_strassen(%u)", n); CHK(arith::solovay_strassen<uint32_t>(n, rf) == om::prime(n)); }
    for (uint32_t n : std::vector<uint32_t>{65537, 2147483647, 4294967291u, 4294967295u, 561, 4294049777u}) { hx::at("solovay_strassen(%u)", n); CHK(arith::solovay_strassen<uint32_t>(n, rf) == om::prime(n)); }
    for (uint32_t n = 3; n < 200; n += 2) for (uint32_t a = 1; a < n; a++) { hx::at("solovay_strassen1(%u,%u)", a, n); int j = jac_ref(a, n); bool w = om::powm(a, (n - 1) / 2, n) == (u64)(j < 0 ? n - 1 : j); CHK(arith::solovay_strassen1<uint32_t>(a, n) == w); }
}
template <typename T> void fac(T n)
{
    hx::at("factorization<%d> of %s", (int)sizeof(T) * 8, SC(n));
    auto f = om::factor((u64)n);
    std::vector<T> dp, pf, cop; std::vector<int> ex;
    for (auto& x : f) { dp.push_back((T)x.first); ex.push_back(x.second); T c = 1; for (int i = 0; i < x.second; i++) { pf.push_back((T)x.first); c = (T)(c * (T)x.first); } cop.push_back(c); }
    std::vector<T> p; std::vector<int> e; arith::factor_prime<T>(n, &p, &e);
    CHECK(p == dp && e == ex, "factor_prime %s", hx::LST(p).c_str());
    CHECK(arith::factor_distinct_prime<T>(n) == dp, "factor_distinct_prime");
    CHECK(arith::get_prime_factors<T>(n) == pf, "get_prime_factors"); CHECK(arith::get_prime_factors<T>(p, e) == pf, "get_prime_factors(2)");
    CHECK(arith::get_coprime_factors<T>(n) == cop, "get_coprime_factors");
    std::vector<T> pd; for (T q : dp) if (q < n) pd.push_back((T)(n / q));
    CHECK(arith::get_proper_divisors<T>(n) == pd && arith::get_proper_divisors<T>(n, p) == pd, "get_proper_divisors");
}
template <typename T> void divs(T n)
{
    hx::at("get_all_divisors<%d>(%s)", (int)sizeof(T) * 8, SC(n));
    std::set<T> d; d.insert(1); for (auto& x : om::factor((u64)n)) { std::set<T> e; T k = 1; for (int i = 0; i <= x.second; i++) { for (T v : d) e.insert((T)(v * k)); k = (T)(k * (T)x.first); } d = e; }
    std::vector<T> w(d.begin(), d.end()), g = arith::get_all_divisors<T>(n);
    std::vector<T> gs(g.begin(), g.end()); std::sort(gs.begin(), gs.end()); // listed once each? a square root divisor appears twice in the list
    gs.erase(std::unique(gs.begin(), gs.end()), gs.end());
    CHECK(gs == w, "%s", hx::LST(g).c_str()); CHK(std::is_sorted(g.begin(), g.end()));
    if (g.size() != w.size()) hx::fail("a divisor is listed twice: %s", hx::LST(g).c_str());
}
SEC(factors) {
    for (uint32_t n = 1; n < 4000; n++) fac<uint32_t>(n);
    for (u64 n = 1; n < 600; n++) { fac<u64>(n); fac<__uint128_t>(n); }
    for (int i = 0; i < 300; i++) fac<uint32_t>(1 + (rnd<uint32_t>() >> 4));
    for (uint32_t n : std::vector<uint32_t>{65536, 65537, 65535, 4294967295u, 4294967291u - 1, 2147483648u, 2147483646u, 4294836225u, 3486784401u}) fac<uint32_t>(n);
    for (u64 n : std::vector<u64>{4294967296ull, 4294967295ull, 281474976710655ull, 18446744073709551615ull, 1ull << 63, 6469693230ull, 4295098369ull}) fac<u64>(n);
}
SEC(divisors) {
    for (uint32_t n = 1; n < 4000; n++) divs<uint32_t>(n);
    for (u64 n = 1; n < 500; n++) divs<u64>(n);
    for (uint32_t n : std::vector<uint32_t>{65536, 65537, 65535, 1 << 30, 4294836225u / 9, 720720}) divs<uint32_t>(n);
}
HX_MAIN
