// Objects are values: copies, moves, assignments, swaps, containers of them and interleaved use of several objects never change what another object contains.
#pragma once
#include "pbt.hpp"
#include "common.hpp"
#include <memory>
#include <type_traits>
namespace hv {
using V = std::vector<long long>;
// small deterministic generator: the same number always describes the same operation
struct Rnd {
    u64 s; explicit Rnd(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int operator()(int n) { return int(next() % u64(n)); }
    int in(int l, int r) { return l + (*this)(r - l + 1); }
    template <class U = int> std::vector<U> vec(int n, int l, int r) { std::vector<U> v(n); for (auto& x : v) x = U(in(l, r)); return v; }
    std::pair<int, int> seg(int n) { int a = (*this)(n + 1), b = (*this)(n + 1); return { std::min(a, b), std::max(a, b) }; }
    std::vector<int> perm(int n) { std::vector<int> p(n); for (int i = 0; i < n; ++i) { p[i] = i; std::swap(p[i], p[(*this)(i + 1)]); } return p; }
    std::string str(int n, int k = 3) { std::string s(n, 'a'); for (auto& c : s) c = char('a' + (*this)(k)); return s; }
    std::vector<std::vector<int>> tree(int n) { std::vector<std::vector<int>> g(n); auto p = perm(n); for (int i = 1; i < n; ++i) { int j = p[(*this)(i)]; g[p[i]].push_back(j), g[j].push_back(p[i]); } return g; }
};
template <class It> inline void put(V& o, It f, It l) { o.push_back((long long)std::distance(f, l)); for (; f != l; ++f) o.push_back((long long)*f); }
template <class C> inline void put(V& o, const C& c) { put(o, std::begin(c), std::end(c)); }

// S: T init(u64), void mut(T&, u64), V obs(T&). A slot is an object with the history that should explain its content.
template <class S> void values(Gen& g) {
    using T = decltype(S::init(u64(0)));
    constexpr bool cc = std::is_copy_constructible_v<T>, ca = std::is_copy_assignable_v<T>, mc = std::is_move_constructible_v<T>, ma = std::is_move_assignable_v<T>;
    struct Slot { std::unique_ptr<T> p; std::vector<u64> h; bool moved = false; };
    auto rebuild = [](const std::vector<u64>& h) { std::unique_ptr<T> p(new T(S::init(h[0]))); for (size_t i = 1; i < h.size(); ++i) S::mut(*p, h[i]); return p; };
    std::vector<Slot> s; auto fresh = [&] { Slot x; x.h = { g.raw(1u << 20) }; x.p.reset(new T(S::init(x.h[0]))); s.push_back(std::move(x)); };
    auto look = [&](Slot& x) { if (x.moved) return; auto r = rebuild(x.h); V e = S::obs(*r), a = S::obs(*x.p); if (a != e) { g.note("history", x.h); EQ(a, e); } };
    fresh(); bool inter = false, after = false; auto mutate = [&](Slot& x) { if (x.moved) return; u64 v = g.raw(1u << 20); g.note(" op", v); S::mut(*x.p, v); x.h.push_back(v); after |= inter; };
    for (int q = g.size(1, 16); q--;) {
        int i = g.raw(s.size()), j = g.raw(s.size()), k = g.raw(13); Slot& a = s[i]; Slot& b = s[j]; g.note("step", k, i, j);
        switch (k) {
        case 0: case 1: case 2: case 3: mutate(a); break;
        case 4: if constexpr (cc) { if (a.moved) break; Slot x; x.h = a.h; x.p.reset(new T(*a.p)); if (g.coin()) { s.push_back(std::move(x)); } else { s[j] = std::move(x); } inter = true; } break;
        case 5: if constexpr (ca) { if (a.moved) break; if (i == j) { T& same = *a.p; *b.p = same; } else { *b.p = *a.p; } b.h = a.h; b.moved = false; inter = true; } break;
        case 6: if constexpr (mc) { if (a.moved) break; Slot x; x.h = a.h; x.p.reset(new T(std::move(*a.p))); a.moved = true; s.push_back(std::move(x)); inter = true; } break;
        case 7: if constexpr (ma) { if (a.moved || i == j) break; *b.p = std::move(*a.p); b.h = a.h; b.moved = false; a.moved = true; inter = true; } break;
        case 8: if constexpr (mc && ma) { if (i == j) break; std::swap(*a.p, *b.p); std::swap(a.h, b.h); std::swap(a.moved, b.moved); inter = true; } break;
        case 9: if constexpr (cc && ca) { std::vector<T> v; std::vector<int> id; for (int t = 0; t < (int)s.size(); ++t) if (!s[t].moved) v.push_back(*s[t].p), id.push_back(t); if (v.empty()) break; if (g.coin()) { v.insert(v.begin(), v.back()); id.insert(id.begin(), id.back()); } if (g.coin()) { v.erase(v.begin()); id.erase(id.begin()); } if (v.empty()) break; int t = g.raw(v.size()); Slot x; x.h = s[id[t]].h; x.p.reset(new T(std::move(v[t]))); s.push_back(std::move(x)); inter = true; } break;
        case 10: if (s.size() > 1) { s.erase(s.begin() + i); inter = true; } break;
        case 11: if (s.size() < 5) fresh(); inter |= s.size() > 1; break;
        default: look(a);
        }
        if (s.size() > 6) s.erase(s.begin() + g.raw(s.size()));
    }
    g.nontrivial(after); for (auto& x : s) { look(x); if (g.coin()) { mutate(x); look(x); } } for (auto& x : s) look(x);
}
}
