// Small property-based-testing engine: every random decision of a generated
// case is drawn through pbt::Gen, which records it as a sequence of choices.
// A failing case is shrunk on that sequence and replayed from it; nothing else
// in a harness may be a source of randomness.
#pragma once
#include <bits/stdc++.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

namespace pbt {
using i64 = long long;
using u64 = unsigned long long;
using i128 = __int128_t;
using u128 = __uint128_t;

struct Failure { std::string msg; };

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 hash_str(const std::string& s) {
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

// ---------------------------------------------------------------- printing
template <class T, class = void> struct can_out : std::false_type {};
template <class T> struct can_out<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
template <class T, class = void> struct can_iter : std::false_type {};
template <class T> struct can_iter<T, std::void_t<decltype(std::declval<const T&>().begin())>> : std::true_type {};
template <class T, class = void> struct can_val : std::false_type {};
template <class T> struct can_val<T, std::void_t<decltype(std::declval<const T&>().val())>> : std::true_type {};
inline std::string str128(u128 x) { std::string s; do s += char('0' + int(x % 10)); while (x /= 10); std::reverse(s.begin(), s.end()); return s; }
template <class T> std::string show(const T& v);
template <class A, class B> std::string show(const std::pair<A, B>& p);
template <class... A> std::string show(const std::tuple<A...>& p);
template <class A> std::string show(const std::optional<A>& p);
template <class T> std::string show(const T& v) {
    if constexpr (std::is_same_v<T, i128>) return v < 0 ? "-" + str128(-(u128)v) : str128(v);
    else if constexpr (std::is_same_v<T, u128>) return str128(v);
    else if constexpr (std::is_same_v<T, std::string>) return "\"" + v + "\"";
    else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_floating_point_v<T>) { char b[64]; snprintf(b, 64, "%.17Lg", (long double)v); return b; }
    else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, const char*>) { std::ostringstream o; if constexpr (sizeof(T) == 1) o << int(v); else o << v; return o.str(); }
    else if constexpr (can_iter<T>::value) {
        std::string s = "["; bool f = true; int k = 0;
        for (const auto& x : v) { if (!f) s += ","; f = false; if (++k > 400) { s += "..."; break; } s += show(x); }
        return s + "]";
    }
    else if constexpr (can_val<T>::value) return std::to_string(v.val());
    else if constexpr (std::is_enum_v<T>) return std::to_string((long long)v);
    else if constexpr (can_out<T>::value) { std::ostringstream o; o << v; return o.str(); }
    else return "<obj>";
}
template <class A, class B> std::string show(const std::pair<A, B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
template <class... A> std::string show(const std::tuple<A...>& p) { std::string s = "("; std::apply([&](const auto&... x) { ((s += show(x) + ","), ...); }, p); s.back() = ')'; return s; }
template <class A> std::string show(const std::optional<A>& p) { return p ? show(*p) : "none"; }

// ---------------------------------------------------------------- shared area between runner and worker
struct Shared {
    static constexpr size_t CAP = 1u << 21;
    volatile u64 case_idx;      // case being run
    volatile u64 done;          // cases finished
    volatile u64 nontrivial;    // distinct non-trivial
    volatile u64 status;        // 0 running, 1 failed, 2 finished
    volatile u64 capped;
    volatile u64 nch;
    char msg[8192];
    char labels[8192];
    u64 ch[CAP];
};

class Gen {
public:
    Gen(Shared* sh, u64 seed) : sh(sh), st(mix(seed)) { sh->nch = 0; }
    Gen(Shared* sh, std::vector<u64> rep, bool verbose) : sh(sh), replay(true), verbose(verbose), rep(std::move(rep)) { sh->nch = 0; }

    // uniform in [0, n)
    u64 raw(u64 n) {
        u64 v;
        if (replay) { v = pos < rep.size() ? rep[pos] : 0; ++pos; if (n && v >= n) v %= n; }
        else { v = next(); if (n) v = u64((u128(v) * n) >> 64); }
        u64 k = sh->nch;
        if (k < Shared::CAP) { sh->ch[k] = v; sh->nch = k + 1; }
        h = mix(h ^ v);
        return v;
    }
    // uniform integer in [lo, hi]; shrinks towards lo
    template <class T = i64> T range(i64 lo, i64 hi) {
        if (hi < lo) throw std::logic_error("pbt: bad range");
        return T(u64(lo) + raw(u64(hi) - u64(lo) + 1));
    }
    int in(i64 lo, i64 hi) { return int(range(lo, hi)); }
    u64 u64any() {
        switch (raw(5)) {
            case 0: return raw(4);
            case 1: { int b = int(raw(64)); return (u64(1) << b) + raw(3) - 1; }
            case 2: { int b = int(raw(65)); return b == 0 ? 0 : raw(0) >> (64 - b); }
            case 3: return ~raw(4);
            default: return raw(0);
        }
    }
    // integer in [lo, hi], biased to edges, small magnitudes, powers of two
    i64 edgy(i64 lo, i64 hi) {
        u64 w = u64(hi) - u64(lo);
        auto clampu = [&](i128 v) { return i64(v < lo ? lo : v > hi ? hi : v); };
        switch (raw(8)) {
            case 0: return clampu(i128(lo) + i128(raw(std::min<u64>(w, 3) + 1)));
            case 1: return clampu(i128(hi) - i128(raw(std::min<u64>(w, 3) + 1)));
            case 2: return clampu(i128(raw(5)) - 2);
            case 3: { i128 v = (i128(1) << raw(63)) + i128(raw(3)) - 1; return clampu(raw(2) ? -v : v); }
            case 4: { int b = int(raw(63)); i128 v = i128(raw(u64(1) << b)); return clampu(raw(2) ? -v : v); }
            default: return i64(u64(lo) + raw(w + 1));
        }
    }
    bool coin() { return raw(2) == 1; }
    bool chance(u64 num, u64 den) { return raw(den) >= den - num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + raw(v.size())); }
    // first decision of a case: one case in `one_in` scales the sizes below up
    void grow(int factor, u64 one_in) { if (factor > 1 && raw(one_in) == one_in - 1) scale = factor; }
    int factor() const { return scale; }
    // size in [lo, hi]: mostly small, sometimes up to hi (beyond it in grown cases)
    int size(int lo, int hi) {
        int w = (hi - lo) * scale;
        hi = lo + w;
        if (scale > 1 && w > 0) labels.insert("grown");
        if (w <= 0) return lo;
        switch (raw(8)) {
            case 0: return lo + int(raw(std::min(w, 3) + 1));
            case 1: case 2: return lo + int(raw(std::min(w, 8) + 1));
            case 3: case 4: return lo + int(raw(std::max(1, w / 4) + 1));
            case 5: { // around powers of two
                int b = int(raw(31)); i64 v = (i64(1) << b) + i64(raw(3)) - 1; if (v < lo || v > hi) v = lo + int(raw(w + 1)); return int(v); }
            default: return lo + int(raw(w + 1));
        }
    }
    // uniform size in [lo, hi] (beyond hi in grown cases)
    int len(int lo, int hi) { if (scale > 1 && hi > lo) labels.insert("grown"); return in(lo, lo + (hi - lo) * scale); }
    template <class T = int> std::vector<T> vec(int n, i64 lo, i64 hi) { std::vector<T> v(n); for (auto& x : v) x = T(range(lo, hi)); return v; }
    template <class T = i64> std::vector<T> evec(int n, i64 lo, i64 hi) { std::vector<T> v(n); for (auto& x : v) x = T(edgy(lo, hi)); return v; }
    std::vector<int> perm(int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (int i = n - 1; i > 0; --i) std::swap(p[i], p[i - int(raw(i + 1))]); return p; }
    template <class T> void shuffle(std::vector<T>& p) { for (int i = int(p.size()) - 1; i > 0; --i) std::swap(p[i], p[i - int(raw(i + 1))]); }
    // sub-interval [l, r) of [0, n], any of them possible including empty ones
    std::pair<int, int> seg(int n) {
        int l, r;
        switch (raw(5)) {
            case 0: l = 0, r = int(raw(n + 1)); break;
            case 1: r = n, l = int(raw(n + 1)); break;
            case 2: l = int(raw(n + 1)), r = std::min(n, l + int(raw(3))); break;
            default: l = int(raw(n + 1)), r = int(raw(n + 1)); if (l > r) std::swap(l, r);
        }
        return { l, r };
    }
    // string with structure: random, periodic, fibonacci-like, few distinct
    std::string str(int n, int alpha, char base = 'a') {
        std::string s;
        switch (raw(6)) {
            case 0: s.assign(n, base); break;
            case 1: { int p = 1 + int(raw(std::max(1, std::min(n, 6)))); std::string t; for (int i = 0; i < p; ++i) t += char(base + raw(alpha)); while (int(s.size()) < n) s += t; s.resize(n); break; }
            case 2: { std::string a(1, base), b(1, char(base + (alpha > 1))); a += b; while (int(a.size()) < n) { std::string c = a + b; b = a; a = c; } s = a.substr(0, n); break; }
            case 3: { while (int(s.size()) < n) { if (s.size() && raw(3)) { size_t l = raw(s.size()), k = 1 + raw(s.size() - l); std::string t = s.substr(l, k); if (raw(3) == 0) std::reverse(t.begin(), t.end()); s += t; } else s += char(base + raw(alpha)); } s.resize(n); break; }
            default: for (int i = 0; i < n; ++i) s += char(base + raw(alpha));
        }
        if (n > 0 && raw(4) == 3) s[raw(n)] = char(base + raw(alpha));
        return s;
    }
    // parent-array style random tree on n vertices, returned as edges (relabelled)
    std::vector<std::pair<int, int>> tree(int n, bool relabel = true) {
        std::vector<std::pair<int, int>> es;
        int shape = int(raw(7));
        for (int i = 1; i < n; ++i) {
            int p;
            switch (shape) {
                case 0: p = i - 1; break;                       // path
                case 1: p = 0; break;                           // star
                case 2: p = (i - 1) / 2; break;                 // binary
                case 3: p = std::max(0, i - 1 - int(raw(3))); break; // long
                case 4: p = i <= n / 2 ? i - 1 : int(raw(n / 2 + 1)); break; // caterpillar / broom
                case 5: p = int(raw(std::min(i, 4))); break;
                default: p = int(raw(i));
            }
            es.emplace_back(p, i);
        }
        if (relabel) { auto q = perm(n); for (auto& [a, b] : es) { a = q[a], b = q[b]; if (raw(2)) std::swap(a, b); } shuffle(es); }
        return es;
    }

    void nontrivial(bool c = true) { if (c) nt = true; }
    void label(const std::string& s) { labels.insert(s); }
    bool verb() const { return verbose; }
    template <class... A> void note(const A&... a) { if (verbose) { ((notes += part(a)), ...); notes += "\n"; } }

    bool nt = false;
    u64 h = 0;
    std::set<std::string> labels;
    std::string notes;
private:
    static std::string part(const char* s) { return s; }
    template <class T> static std::string part(const T& x) { return show(x) + " "; }
    u64 next() { st += 0x9e3779b97f4a7c15ULL; u64 x = st; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
    Shared* sh;
    u64 st = 0;
    bool replay = false, verbose = false;
    std::vector<u64> rep;
    size_t pos = 0;
    int scale = 1;
};

struct Test { std::string name, rule; u64 cases; std::function<void(Gen&)> f; int grow; u64 one_in; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(std::function<void(Gen&)> f, const char* n, u64 c, const char* r, int grow = 1, u64 one_in = 1) { tests().push_back({ n, r, c, f, grow, one_in }); } };

[[noreturn]] inline void fail(const char* file, int line, const std::string& m) { throw Failure{ std::string(strrchr(file, '/') ? strrchr(file, '/') + 1 : file) + ":" + std::to_string(line) + ": " + m }; }
template <class A, class B> void check_eq(const char* file, int line, const char* ea, const char* eb, const A& a, const B& b) {
    if (!(a == b)) fail(file, line, std::string(ea) + " == " + eb + " | got " + show(a) + " want " + show(b));
}
} // namespace pbt

namespace pbt { template <class T> std::string msg_of(const T& m) { if constexpr (std::is_convertible_v<const T&, std::string>) return m; else return show(m); } }
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT(name, cases, rule of non-triviality[, size factor, in one case of]) { body }
#define PBT(name, ...) \
    static void pbt_test_##name(pbt::Gen& g); \
    static pbt::Reg pbt_reg_##name(pbt_test_##name, #name, __VA_ARGS__); \
    static void pbt_test_##name([[maybe_unused]] pbt::Gen& g)
#define CK(cond) do { if (!(cond)) pbt::fail(__FILE__, __LINE__, "expected: " #cond); } while (0)
#define CKM(cond, m) do { if (!(cond)) pbt::fail(__FILE__, __LINE__, std::string("expected: " #cond " ") + pbt::msg_of(m)); } while (0)
#define EQ(a, b) pbt::check_eq(__FILE__, __LINE__, #a, #b, (a), (b))

