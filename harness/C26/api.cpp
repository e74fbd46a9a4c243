#include "common.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
using namespace hv;
PBT(matrix_construction, 4000, "every case") {
    using A = suisen::ArrayMatrix<Z, 2, 3>; using R = typename A::row_type; R r0, r1; for (auto& x : r0) x = g.range(0, 9); for (auto& x : r1) x = g.range(0, 9); std::initializer_list<R> il{ r0, r1 }; A a(il); CK(a[0] == r0 && a[1] == r1); EQ(a.row_size(), 2); EQ(a.col_size(), 3); typename A::container_type c{ r1, r0 }; A b(c); A s = a + b; for (int j = 0; j < 3; ++j) EQ(s[0][j], r0[j] + r1[j]);
    int n = g.in(1, 4), m = g.in(1, 4); std::vector<std::vector<Z>> v(n, std::vector<Z>(m)); for (auto& x : v) for (auto& y : x) y = g.range(0, 99); suisen::Matrix<Z> M(v); std::vector<std::vector<Z>> w = M; CK(w == v); g.nontrivial();
    suisen::MatrixF2 F(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) F[i][j] = v[i][j].v & 1; std::vector<suisen::DynamicBitSet> d = F; EQ((int)d.size(), n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) EQ((int)d[i][j], (int)(v[i][j].v & 1));
}
