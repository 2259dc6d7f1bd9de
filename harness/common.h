// Executable-contract harness support: runs the real code of /repo against an
// independent oracle, records the input of the case being run so that a crash
// or a mismatch can be reported and replayed.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <set>
#include <map>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

namespace hx {
typedef unsigned __int128 u128;
typedef __int128 s128;

struct Section { const char* name; void (*fn)(); };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char* n, void (*f)()) { sections().push_back({n, f}); } };
#define SEC(name) static void sec_##name(); static hx::Reg reg_##name(#name, sec_##name); static void sec_##name()

inline char*& slot() { static char* p = nullptr; return p; }
inline uint64_t& ncases() { static uint64_t n = 0; return n; }
inline int& scale() { static int n = 1; return n; }
inline std::mt19937_64& rng() { static std::mt19937_64 r(1); return r; }
inline uint64_t R() { return rng()(); }
inline uint64_t R(uint64_t n) { return n ? rng()() % n : 0; }
inline bool coin(int n = 2) { return R(n) == 0; }

// describe the case about to run (survives a crash: shared mapping)
inline void at(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void at(const char* fmt, ...)
{
    ncases()++;
    va_list ap; va_start(ap, fmt);
    vsnprintf(slot(), 4000, fmt, ap);
    va_end(ap);
    *(uint64_t*)(slot() + 4096) = ncases();
}
inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
inline void fail(const char* fmt, ...)
{
    char buf[4000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    printf("FAIL: %s\nCASE: %s\n", buf, slot());
    fflush(stdout);
    _exit(7);
}
#define CHECK(c, ...) do { if (!(c)) hx::fail(__VA_ARGS__); } while (0)
#define CHK(c) do { if (!(c)) hx::fail("%s (line %d)", #c, __LINE__); } while (0)

inline std::string S(u128 v)
{
    if (v == 0) return "0";
    std::string s;
    while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; }
    return s;
}
inline const char* SC(u128 v) { static std::string r[8]; static int i = 0; i = (i + 1) & 7; r[i] = S(v); return r[i].c_str(); }
template <typename C> std::string LST(const C& v, size_t max = 40)
{
    std::string s = "[";
    size_t i = 0;
    for (auto x : v) { if (i++ == max) { s += "..."; break; } s += S((u128)x) + " "; }
    return s + "]";
}

// true when f() ends by exception, abort or a signal (run in a child)
// how: 0 returned normally, 1 exception, 2 killed by SIGABRT, 3 other end
inline int outcome(std::function<void()> f)
{
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2); dup2(nul, 1);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        signal(SIGABRT, SIG_DFL);
        alarm(20);
        try { f(); } catch (...) { _exit(11); }
        _exit(10);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st)) return WEXITSTATUS(st) == 10 ? 0 : WEXITSTATUS(st) == 11 ? 1 : 3;
    return WTERMSIG(st) == SIGABRT ? 2 : 3;
}

// a buffer of exactly n elements between two guard zones
template <typename T> struct Guarded {
    std::vector<unsigned char> raw; size_t n; size_t off;
    static constexpr size_t G = 256;
    explicit Guarded(size_t n_, size_t align = 32, size_t skew = 0) : raw(n_ * sizeof(T) + 2 * G + align + skew * sizeof(T) + 64), n(n_)
    {
        for (auto& b : raw) b = 0xA5;
        off = G;
        off += (align - ((uintptr_t)(raw.data() + off) % align)) % align;
        off += skew * sizeof(T);
    }
    Guarded(const Guarded&) = delete;
    T* p() { return reinterpret_cast<T*>(raw.data() + off); }
    T& operator[](size_t i) { return p()[i]; }
    bool intact()
    {
        for (size_t i = 0; i < raw.size(); i++)
            if ((i < off || i >= off + n * sizeof(T)) && raw[i] != 0xA5) return false;
        return true;
    }
};

int run_main(int argc, char** argv);
inline int run_main(int argc, char** argv)
{
    uint64_t seed = 1; const char* only = nullptr; const char* status = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--list") { for (auto& s : sections()) printf("%s\n", s.name); return 0; }
        if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--scale") scale() = atoi(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else if (a == "--status") status = argv[++i];
    }
    if (status) {
        int fd = open(status, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, 8192)) return 99;
        slot() = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    } else
        slot() = (char*)calloc(1, 8192);
    for (auto& s : sections()) {
        if (only && strcmp(only, s.name)) continue;
        rng().seed(seed * 1000003 + std::hash<std::string>()(s.name));
        strcpy(slot(), s.name);
        try { s.fn(); }
        catch (std::exception& e) { fail("unexpected exception: %s", e.what()); }
        catch (...) { fail("unexpected exception"); }
        printf("OK %s cases=%llu\n", s.name, (unsigned long long)ncases());
        fflush(stdout);
        ncases() = 0;
    }
    return 0;
}
} // namespace hx
#define HX_MAIN int main(int c, char** v) { return hx::run_main(c, v); }

// ---------------------------------------------------------------- oracle math
namespace om {
using hx::u128;
typedef uint64_t u64;
inline u64 mulm(u64 a, u64 b, u64 m) { return (u128)a * b % m; }
inline u64 addm(u64 a, u64 b, u64 m) { return ((u128)a + b) % m; }
inline u64 subm(u64 a, u64 b, u64 m) { return ((u128)a + m - b) % m; }
inline u64 powm(u64 a, u128 e, u64 m) { u64 r = 1 % m; a %= m; while (e) { if (e & 1) r = mulm(r, a, m); a = mulm(a, a, m); e >>= 1; } return r; }
inline u64 gcd(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
// deterministic Miller-Rabin for 64-bit
inline bool prime(u64 n)
{
    if (n < 2) return false;
    for (u64 p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % p == 0) return n == p; }
    u64 d = n - 1; int s = 0; while (!(d & 1)) { d >>= 1; s++; }
    for (u64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
        u64 x = powm(a, d, n);
        if (x == 1 || x == n - 1) continue;
        bool c = true;
        for (int i = 1; i < s && c; i++) { x = mulm(x, x, n); if (x == n - 1) c = false; }
        if (c) return false;
    }
    return true;
}
inline u64 rho(u64 n)
{
    if (!(n & 1)) return 2;
    for (u64 c = 1;; c++) {
        u64 x = 2, y = 2, d = 1;
        while (d == 1) {
            x = addm(mulm(x, x, n), c, n);
            y = addm(mulm(y, y, n), c, n); y = addm(mulm(y, y, n), c, n);
            d = gcd(x > y ? x - y : y - x, n);
        }
        if (d != n) return d;
    }
}
inline void factor(u64 n, std::map<u64, int>& f)
{
    if (n < 2) return;
    if (prime(n)) { f[n]++; return; }
    u64 d = rho(n); factor(d, f); factor(n / d, f);
}
inline std::map<u64, int> factor(u64 n) { std::map<u64, int> f; factor(n, f); return f; }
// multiplicative order of a modulo m, given the group order h and its factorization
inline u64 order_in(u64 a, u64 m, u64 h)
{
    u64 o = h;
    for (auto& pe : factor(h)) for (int i = 0; i < pe.second; i++) { if (powm(a, o / pe.first, m) == 1 % m) o /= pe.first; else break; }
    return o;
}
} // namespace om
