#ifndef VACL_TWOSAT
#define VACL_TWOSAT 1
#include "scc.hpp"
namespace atcoder {
struct two_sat {
    two_sat() : _n(0), scc(0) {}
    explicit two_sat(int n) : _n(n), _answer(n), scc(2 * n) {}
    void add_clause(int i, bool f, int j, bool g) { assert(0 <= i && i < _n); assert(0 <= j && j < _n); scc.add_edge(2 * i + (f ? 0 : 1), 2 * j + (g ? 1 : 0)); scc.add_edge(2 * j + (g ? 0 : 1), 2 * i + (f ? 1 : 0)); }
    bool satisfiable() { auto id = scc.scc_ids().second; for (int i = 0; i < _n; i++) { if (id[2 * i] == id[2 * i + 1]) return false; _answer[i] = id[2 * i] < id[2 * i + 1]; } return true; }
    std::vector<bool> answer() { return _answer; }
private:
    int _n; std::vector<bool> _answer; internal::scc_graph scc;
};
}
#endif
