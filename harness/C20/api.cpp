#include "common.hpp"
#include "library/string/run_enumerate.hpp"
#include "library/string/substring_set.hpp"
using namespace hv;
PBT(run_order, 6000, "the runs share the period") { auto mk = [&] { int p = g.in(1, 3), l = g.in(0, 3); return suisen::Run(p, l, l + g.in(2, 4)); }; auto a = mk(), b = mk(); auto x = std::make_tuple(a.period, a.l, a.r), y = std::make_tuple(b.period, b.l, b.r); CK((a < b) == (x < y)); CK((a > b) == (x > y)); CK((a <= b) == (x <= y)); CK((a >= b) == (x >= y)); CK((a == b) == (x == y)); CK((a != b) == (x != y)); g.nontrivial(a.period == b.period); }
PBT(substring_set_views, 2500, "at least 10 distinct substrings", 8, 12) {
    std::string s = g.str(g.size(1, 12), g.in(1, 3)); suisen::SubstringSet<char> S(s); std::set<std::string> w; w.insert(""); for (size_t i = 0; i < s.size(); ++i) for (size_t l = 1; i + l <= s.size(); ++l) w.insert(s.substr(i, l)); std::vector<std::string> v(w.begin(), w.end()); if ((size_t)S.size() != v.size()) v.erase(v.begin()); EQ((size_t)S.size(), v.size());
    auto l = g.str(g.in(0, 4), 3), r = g.str(g.in(0, 4), 3); if (l < r && !w.count(r)) EQ((i64)S.count_range(l, r), (i64)std::count_if(v.begin(), v.end(), [&](auto& t) { return l <= t && t < r; })); if (l > r) EQ((i64)S.count_range(l, r), 0LL);
    std::vector<std::string> a, b; for (auto it = S.cbegin(); it != S.cend(); ++it) a.push_back(*it); for (auto it = S.crbegin(); it != S.crend(); ++it) b.push_back(*it); CKM(a == v, "forward"); std::reverse(b.begin(), b.end()); CKM(b == v, "backward");
    auto i = S.begin(), j = S.end(); int x = g.raw(v.size() + 1), y = g.raw(v.size() + 1); i += x; j = S.begin() + y; CK((i < j) == (x < y) && (i > j) == (x > y) && (i <= j) == (x <= y) && (i >= j) == (x >= y) && (i == j) == (x == y) && (i != j) == (x != y)); EQ((i64)(i - j), (i64)(x - y)); j = i; if (x < (int)v.size()) EQ(*j, v[x]); if (x) EQ(*(i - 1), v[x - 1]); g.nontrivial(v.size() >= 10);
}
