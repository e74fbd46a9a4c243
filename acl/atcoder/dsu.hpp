#ifndef VACL_DSU
#define VACL_DSU 1
#include <algorithm>
#include <cassert>
#include <vector>
namespace atcoder {
struct dsu {
    dsu() : _n(0) {}
    explicit dsu(int n) : _n(n), parent_or_size(n, -1) {}
    int merge(int a, int b) {
        assert(0 <= a && a < _n); assert(0 <= b && b < _n);
        int x = leader(a), y = leader(b);
        if (x == y) return x;
        if (-parent_or_size[x] < -parent_or_size[y]) std::swap(x, y);
        parent_or_size[x] += parent_or_size[y]; parent_or_size[y] = x;
        return x;
    }
    bool same(int a, int b) { return leader(a) == leader(b); }
    int leader(int a) { assert(0 <= a && a < _n); return parent_or_size[a] < 0 ? a : parent_or_size[a] = leader(parent_or_size[a]); }
    int size(int a) { return -parent_or_size[leader(a)]; }
    std::vector<std::vector<int>> groups() {
        std::vector<std::vector<int>> r(_n);
        for (int i = 0; i < _n; i++) r[leader(i)].push_back(i);
        r.erase(std::remove_if(r.begin(), r.end(), [](const std::vector<int>& v) { return v.empty(); }), r.end());
        return r;
    }
private:
    int _n; std::vector<int> parent_or_size;
};
}
#endif
