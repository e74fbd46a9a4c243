#ifndef VACL_MAXFLOW
#define VACL_MAXFLOW 1
#include <algorithm>
#include <cassert>
#include <limits>
#include <queue>
#include <vector>
namespace atcoder {
template <class Cap> struct mf_graph {
    mf_graph() : _n(0) {}
    explicit mf_graph(int n) : _n(n), g(n) {}
    struct edge { int from, to; Cap cap, flow; };
    int add_edge(int from, int to, Cap cap) {
        assert(0 <= from && from < _n); assert(0 <= to && to < _n); assert(0 <= cap);
        int m = int(pos.size()); pos.push_back({ from, int(g[from].size()) });
        int fi = int(g[from].size()), ti = int(g[to].size()); if (from == to) ti++;
        g[from].push_back({ to, ti, cap }); g[to].push_back({ from, fi, 0 });
        return m;
    }
    edge get_edge(int i) { auto& e = g[pos[i].first][pos[i].second]; auto& re = g[e.to][e.rev]; return { pos[i].first, e.to, Cap(e.cap + re.cap), re.cap }; }
    std::vector<edge> edges() { std::vector<edge> r; for (int i = 0; i < int(pos.size()); i++) r.push_back(get_edge(i)); return r; }
    Cap flow(int s, int t) { return flow(s, t, std::numeric_limits<Cap>::max()); }
    Cap flow(int s, int t, Cap limit) {
        assert(s != t);
        Cap total = 0;
        while (total < limit) { // shortest augmenting paths
            std::vector<std::pair<int, int>> pre(_n, { -1, -1 }); std::queue<int> q; q.push(s); pre[s] = { s, -1 };
            while (!q.empty() && pre[t].first < 0) { int v = q.front(); q.pop(); for (int i = 0; i < int(g[v].size()); ++i) { auto& e = g[v][i]; if (e.cap > 0 && pre[e.to].first < 0) { pre[e.to] = { v, i }; q.push(e.to); } } }
            if (pre[t].first < 0) break;
            Cap f = limit - total;
            for (int v = t; v != s; v = pre[v].first) f = std::min(f, g[pre[v].first][pre[v].second].cap);
            for (int v = t; v != s; v = pre[v].first) { auto& e = g[pre[v].first][pre[v].second]; e.cap -= f; g[e.to][e.rev].cap += f; }
            total += f;
        }
        return total;
    }
    std::vector<bool> min_cut(int s) {
        std::vector<bool> vis(_n); std::queue<int> q; q.push(s); vis[s] = true;
        while (!q.empty()) { int p = q.front(); q.pop(); for (auto& e : g[p]) if (e.cap && !vis[e.to]) { vis[e.to] = true; q.push(e.to); } }
        return vis;
    }
private:
    struct _edge { int to, rev; Cap cap; };
    int _n; std::vector<std::pair<int, int>> pos; std::vector<std::vector<_edge>> g;
};
}
#endif
