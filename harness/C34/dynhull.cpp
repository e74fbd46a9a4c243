#include "common.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include <set>
using namespace hv; using namespace suisen; using std::vector; using Pt = std::pair<int, int>;
namespace { using LL = __int128; int sg(LL x) { return x < 0 ? -1 : x > 0; } int orient(Pt a, Pt b, Pt c) { return sg((LL)((i64)b.first - a.first) * ((i64)c.second - a.second) - (LL)((i64)b.second - a.second) * ((i64)c.first - a.first)); }
// strict lower hull, left to right (pts sorted, distinct)
vector<Pt> strict_lower(const vector<Pt>& p) { vector<Pt> h; for (auto& q : p) { if (h.size() && h.back().first == q.first) continue; while (h.size() >= 2 && orient(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); } return h; }
bool above(const vector<Pt>& h, Pt q, bool& onb) { onb = false; if (h.size() == 1) { onb = q == h[0]; return q.second >= h[0].second; } for (size_t i = 0; i + 1 < h.size(); ++i) if (h[i].first <= q.first && q.first <= h[i + 1].first) { int o = orient(h[i], h[i + 1], q); onb = o == 0; return o >= 0; } return false; }
}
PBT(dynamic_hull, 5000, "an erase and at least three distinct points", 8, 25) {
    int k = g.size(1, 12), R = g.pick({ 2, 5, 20, 1000000000 }); vector<int> xs; for (int i = 0; i < k; ++i) xs.push_back(g.in(-R, R)); g.note("xs", xs); bool neg0 = g.coin(); DynamicConvexHullOffline H = neg0 ? DynamicConvexHullOffline(xs) : DynamicConvexHullOffline(vector<i64>(xs.begin(), xs.end())); std::set<Pt> S; int m = g.size(0, 40); bool er = false, three = false;
    auto gy = [&] { return g.chance(1, 3) && S.size() ? std::next(S.begin(), g.in(0, (int)S.size() - 1))->second : g.in(-R, R); };
    for (int t = 0; t < m; ++t) {
        int op = g.in(0, 7);
        if (op <= 3 || S.empty()) { int x = xs[g.in(0, k - 1)], y = gy(); if (op == 3 && S.size() >= 2) { auto a = *std::next(S.begin(), g.in(0, (int)S.size() - 1)); y = std::clamp<i64>((i64)a.second + (x - (i64)a.first) * g.in(-1, 1), -R, R); } g.note("insert", x, y); H.insert(x, y); S.insert({ x, y }); }
        else if (op == 4 || op == 5) { Pt p; if (g.chance(1, 8)) p = { xs[g.in(0, k - 1)], gy() }; else p = *std::next(S.begin(), g.in(0, (int)S.size() - 1)); g.note("erase", p); H.erase(p.first, p.second); S.erase(p); er = true; }
        else { i64 A = g.pick({ 1, 3, 1000000000 }); int a = g.in(-A, A), b = g.in(-A, A); if (g.chance(1, 3)) { auto p = *std::next(S.begin(), g.in(0, (int)S.size() - 1)), q = *S.begin(); i64 dx = (i64)p.first - q.first, dy = (i64)p.second - q.second; if (std::abs(dx) <= 1000000000 && std::abs(dy) <= 1000000000) a = dy, b = -dx; } g.note("query", a, b); i64 mx = INT64_MIN, mn = INT64_MAX; for (auto& p : S) { i64 v = (i64)a * p.first + (i64)b * p.second; mx = std::max(mx, v), mn = std::min(mn, v); } CKM(H.linear_max(a, b) == mx, "linear_max"); CKM(H.linear_min(a, b) == mn, "linear_min"); }
        three |= S.size() >= 3;
        if (g.chance(1, 3) || t == m - 1) {
            auto lo = H.get_lower_hull(), up = H.get_upper_hull(), hu = H.get_hull(); if (S.empty()) { CKM(lo.empty() && up.empty() && hu.empty(), "empty hull"); continue; }
            vector<Pt> p(S.begin(), S.end()); auto sl = strict_lower(p); vector<Pt> mp; for (auto& q : p) mp.push_back({ q.first, -q.second }); std::sort(mp.begin(), mp.end()); auto su = strict_lower(mp);
            vector<Pt> el, eu; bool onb; for (auto& q : p) { above(sl, q, onb); if (onb) el.push_back(q); } for (auto& q : mp) { above(su, q, onb); if (onb) eu.push_back({ q.first, -q.second }); }
            g.note("hulls", lo, up, hu); CKM(vector<Pt>(lo.begin(), lo.end()) == el, "lower hull lists the boundary points left to right"); CKM(vector<Pt>(up.begin(), up.end()) == eu, "upper hull lists the boundary points left to right");
            std::set<Pt> bd(el.begin(), el.end()); bd.insert(eu.begin(), eu.end()); int xl = p.front().first, xr = p.back().first; for (auto& q : p) if (q.first == xl || q.first == xr) bd.insert(q); std::set<Pt> got(hu.begin(), hu.end()); CKM(got == bd && got.size() == hu.size(), "get_hull lists every boundary point once");
            // cyclic clockwise order
            if (sl.size() + su.size() > 2 && !(el == eu)) { for (size_t i = 0; i < hu.size(); ++i) CKM(orient(hu[i], hu[(i + 1) % hu.size()], hu[(i + 2) % hu.size()]) <= 0, "get_hull is clockwise"); }
        }
    }
    g.nontrivial(er && three);
}
