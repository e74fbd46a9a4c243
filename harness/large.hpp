// Contest-scale cases: a whole large input is expanded deterministically from one
// drawn seed (so replay and shrinking still see every decision of the case).
#pragma once
#include "common.hpp"
namespace hv {
struct Bulk {
    u64 s;
    explicit Bulk(Gen& g) : s(g.raw(0)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return pbt::mix(s); }
    u64 raw(u64 n) { return n ? u64((u128(next()) * n) >> 64) : next(); }
    i64 range(i64 lo, i64 hi) { return i64(u64(lo) + raw(u64(hi) - u64(lo) + 1)); }
    int in(i64 lo, i64 hi) { return int(range(lo, hi)); }
    bool coin() { return raw(2); }
    template <class T = i64> std::vector<T> vec(int n, i64 lo, i64 hi) { std::vector<T> v(n); for (auto& x : v) x = T(range(lo, hi)); return v; }
    template <class T> void shuffle(std::vector<T>& p) { for (int i = int(p.size()) - 1; i > 0; --i) std::swap(p[i], p[raw(i + 1)]); }
    std::vector<int> perm(int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); shuffle(p); return p; }
    std::pair<int, int> seg(int n) { int l = int(raw(n + 1)), r = int(raw(n + 1)); if (l > r) std::swap(l, r); switch (raw(6)) { case 0: l = 0; break; case 1: r = n; break; case 2: r = std::min(n, l + int(raw(4))); } return { l, r }; }
    // shapes 0 path, 1 star, 2 binary, 3 caterpillar, 4 broom, 5 sqrt-legs, 6 random, 7 nearly a path
    std::vector<std::pair<int, int>> tree(int n, int shape, bool relabel = true) {
        std::vector<std::pair<int, int>> es; int leg = std::max(1, int(std::sqrt(double(n))));
        for (int i = 1; i < n; ++i) {
            int p;
            switch (shape) {
                case 0: p = i - 1; break; case 1: p = 0; break; case 2: p = (i - 1) / 2; break;
                case 3: p = i < n / 2 ? i - 1 : i - n / 2; break; case 4: p = i < n / 2 ? i - 1 : n / 2 - 1; if (p < 0) p = 0; break;
                case 5: p = i % leg == 1 || leg == 1 ? 0 : i - 1; break; case 6: p = int(raw(i)); break;
                default: p = std::max(0, i - 1 - int(raw(3)));
            }
            es.emplace_back(p, i);
        }
        if (relabel) { auto q = perm(n); for (auto& [a, b] : es) { a = q[a], b = q[b]; if (coin()) std::swap(a, b); } shuffle(es); }
        return es;
    }
    // strings: 0 one letter, 1 fibonacci, 2 periodic, 3 thue-morse, 4 blocks copied, 5 random
    std::string str(int n, int kind, int alpha, char base = 'a') {
        std::string s;
        switch (kind) {
            case 0: s.assign(n, base); break;
            case 1: { std::string a(1, base), b(1, char(base + 1)); a += b; while (int(a.size()) < n) { std::string c = a + b; b = a; a = c; } s = a.substr(0, n); break; }
            case 2: { int p = 1 + int(raw(200)); for (int i = 0; i < n; ++i) s += i < p ? char(base + raw(alpha)) : s[i - p]; break; }
            case 3: for (int i = 0; i < n; ++i) s += char(base + (__builtin_popcount(i) & 1)); break;
            case 4: while (int(s.size()) < n) { if (s.size() && raw(8)) { size_t l = raw(s.size()), k = 1 + raw(s.size() - l); std::string t = s.substr(l, k); if (coin()) std::reverse(t.begin(), t.end()); s += t; } else s += char(base + raw(alpha)); } s.resize(n); break;
            default: for (int i = 0; i < n; ++i) s += char(base + raw(alpha));
        }
        return s;
    }
};
// a size past 2^16 / 2^17, often exactly around a power of two
inline int big_n(Gen& g, int hi = 200000) {
    switch (g.raw(4)) { case 0: return std::min(hi, (1 << 16) + int(g.raw(3)) - 1); case 1: return std::min(hi, (1 << 17) + int(g.raw(3)) - 1); default: return hi / 2 + int(g.raw(hi / 2 + 1)); }
}
// rooted forest oracle with binary lifting, no recursion
struct BigTree {
    int n, lg = 1; Adj a; std::vector<int> par, dep, sz, ord; std::vector<std::vector<int>> up;
    BigTree(int n, const std::vector<std::pair<int, int>>& es, int root) : n(n), a(n), par(n, -1), dep(n, 0), sz(n, 1) {
        for (auto [u, v] : es) a[u].push_back(v), a[v].push_back(u);
        ord.push_back(root); for (size_t i = 0; i < ord.size(); ++i) for (int c : a[ord[i]]) if (c != par[ord[i]]) par[c] = ord[i], dep[c] = dep[ord[i]] + 1, ord.push_back(c);
        for (int i = n; i-- > 1;) sz[par[ord[i]]] += sz[ord[i]];
        while ((1 << lg) < n) ++lg; up.assign(lg, par); for (int k = 1; k < lg; ++k) for (int v = 0; v < n; ++v) up[k][v] = up[k - 1][v] < 0 ? -1 : up[k - 1][up[k - 1][v]];
    }
    int la(int u, i64 k) const { if (k < 0 || k > dep[u]) return -1; for (int j = 0; j < lg; ++j) if (k >> j & 1) u = up[j][u]; return u; }
    int lca(int u, int v) const { if (dep[u] < dep[v]) std::swap(u, v); u = la(u, dep[u] - dep[v]); if (u == v) return u; for (int j = lg; j--;) if (up[j][u] != up[j][v]) u = up[j][u], v = up[j][v]; return par[u]; }
    int dist(int u, int v) const { return dep[u] + dep[v] - 2 * dep[lca(u, v)]; }
    int at(int u, int v, int k) const { int c = lca(u, v), x = dep[u] - dep[c], y = dep[v] - dep[c]; return k < 0 || k > x + y ? -1 : k <= x ? la(u, k) : la(v, x + y - k); }
    std::vector<int> path(int u, int v) const { std::vector<int> p, q; while (u != v) if (dep[u] >= dep[v]) p.push_back(u), u = par[u]; else q.push_back(v), v = par[v]; p.push_back(u); p.insert(p.end(), q.rbegin(), q.rend()); return p; }
    std::vector<int> bfs(int s) const { std::vector<int> d(n, -1), q{ s }; d[s] = 0; for (size_t i = 0; i < q.size(); ++i) for (int c : a[q[i]]) if (d[c] < 0) d[c] = d[q[i]] + 1, q.push_back(c); return d; }
};
} // namespace hv
