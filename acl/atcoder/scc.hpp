#ifndef VACL_SCC
#define VACL_SCC 1
#include <algorithm>
#include <cassert>
#include <utility>
#include <vector>
namespace atcoder {
namespace internal {
struct scc_graph {
    explicit scc_graph(int n) : _n(n), g(n) {}
    int num_vertices() const { return _n; }
    void add_edge(int a, int b) { g[a].push_back(b); }
    std::pair<int, std::vector<int>> scc_ids() const {
        int now_ord = 0, group_num = 0; std::vector<int> visited, low(_n), ord(_n, -1), ids(_n);
        auto dfs = [&](auto self, int v) -> void {
            low[v] = ord[v] = now_ord++; visited.push_back(v);
            for (int to : g[v]) { if (ord[to] == -1) { self(self, to); low[v] = std::min(low[v], low[to]); } else low[v] = std::min(low[v], ord[to]); }
            if (low[v] == ord[v]) { while (true) { int u = visited.back(); visited.pop_back(); ord[u] = _n; ids[u] = group_num; if (u == v) break; } group_num++; }
        };
        for (int i = 0; i < _n; i++) if (ord[i] == -1) dfs(dfs, i);
        for (auto& x : ids) x = group_num - 1 - x;
        return { group_num, ids };
    }
    std::vector<std::vector<int>> scc() const { auto r = scc_ids(); std::vector<std::vector<int>> gr(r.first); for (int i = 0; i < _n; i++) gr[r.second[i]].push_back(i); return gr; }
private:
    int _n; std::vector<std::vector<int>> g;
};
}
struct scc_graph {
    scc_graph() : internal(0) {}
    explicit scc_graph(int n) : internal(n) {}
    void add_edge(int from, int to) { int n = internal.num_vertices(); assert(0 <= from && from < n); assert(0 <= to && to < n); internal.add_edge(from, to); }
    std::vector<std::vector<int>> scc() { return internal.scc(); }
private:
    internal::scc_graph internal;
};
}
#endif
