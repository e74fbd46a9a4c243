#include "num.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
#include "library/linear_algebra/gaussian_elimination_f2.hpp"
using namespace hv;
using B = std::vector<char>; using BB = std::vector<B>;
static BB gm(Gen& g, int n, int k) { int mode = g.raw(4); BB a(n, B(k)); for (auto& r : a) for (auto& x : r) x = mode == 0 ? g.chance(1, 6) : mode == 1 ? g.chance(5, 6) : g.coin(); if (n > 1 && g.chance(1, 3)) { int i = g.raw(n), j = g.raw(n), l = g.raw(n); for (int t = 0; t < k; ++t) a[i][t] = a[j][t] ^ a[l][t]; } if (n && g.chance(1, 6)) { int i = g.raw(n); for (auto& x : a[i]) x = 0; } if (k && g.chance(1, 4)) { int j = g.raw(k); for (auto& r : a) r[j] = 0; } return a; }
static suisen::MatrixF2 mk(const BB& a, int k) { suisen::MatrixF2 m(a.size(), k); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < k; ++j) m[i][j] = bool(a[i][j]); return m; }
static BB rd(const suisen::MatrixF2& m) { BB a(m.row_size(), B(m.col_size())); for (int i = 0; i < m.row_size(); ++i) for (int j = 0; j < m.col_size(); ++j) a[i][j] = m[i][j]; return a; }
static BB mul(const BB& a, const BB& b, int k) { BB c(a.size(), B(k)); for (size_t i = 0; i < a.size(); ++i) for (size_t t = 0; t < b.size(); ++t) if (a[i][t]) for (int j = 0; j < k; ++j) c[i][j] ^= b[t][j]; return c; }
static int rk(BB a) { int n = a.size(), k = n ? a[0].size() : 0, r = 0; for (int j = 0; j < k && r < n; ++j) { int p = r; while (p < n && !a[p][j]) ++p; if (p == n) continue; std::swap(a[p], a[r]); for (int i = 0; i < n; ++i) if (i != r && a[i][j]) for (int t = 0; t < k; ++t) a[i][t] ^= a[r][t]; ++r; } return r; }
static BB id(int n) { BB a(n, B(n)); for (int i = 0; i < n; ++i) a[i][i] = 1; return a; }
static int dim(Gen& g) { return g.chance(1, 5) ? g.in(60, 70) : g.in(1, 9); }
PBT(matrix_f2, 2000, "both dimensions at least 3 and not of full rank") { int n = dim(g), k = dim(g), l = dim(g); auto a = gm(g, n, k), b = gm(g, n, k), c = gm(g, k, l); auto A = mk(a, k), Bm = mk(b, k), C = mk(c, l); if (n < 10 && k < 10) g.note(a, " ", b); CK(A.shape() == std::make_pair(n, k)); EQ(A.row_size(), n); EQ(A.col_size(), k); CK(rd(A) == a); CK((A == Bm) == (a == b) && (A != Bm) == (a != b)); BB t(k, B(n)), s = a; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) t[j][i] = a[i][j], s[i][j] ^= b[i][j]; CK(rd(A.transposed()) == t); CK(rd(A + Bm) == s); CK(rd(A - Bm) == s); { auto D = A; D += Bm; CK(rd(D) == s); D -= Bm; CK(D == A); D += D; CK(rd(D) == BB(n, B(k))); D = A; D *= C; CK(rd(D) == mul(a, c, l)); D = A; D *= true; CK(D == A); D /= true; CK(D == A); D *= false; CK(rd(D) == BB(n, B(k))); CK(rd(A * false) == BB(n, B(k)) && A * true == A && true * A == A && A / true == A); } CKM(rd(A * C) == mul(a, c, l), "product"); suisen::DynamicBitSet x(k); B xv(k), yv(n); for (int j = 0; j < k; ++j) x[j] = bool(xv[j] = g.coin()); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) yv[i] ^= a[i][j] & xv[j]; auto y = A * x; EQ((int)y.size(), n); for (int i = 0; i < n; ++i) EQ((bool)y[i], (bool)yv[i]); int r = rk(a); EQ((int)A.rank(), r); auto q = gm(g, n, n); auto Q = mk(q, n); int rq = rk(q); EQ(Q.det(), rq == n); EQ((int)Q.rank(), rq); auto iv = Q.inv(); EQ((bool)iv, rq == n); if (iv) { CK(rd(Q * *iv) == id(n)); CK(rd(*iv * Q) == id(n)); auto W = mk(gm(g, n, n), n); CK((W / Q) * Q == W); auto D = W; D /= Q; CK(D * Q == W); } u64 e = n > 20 ? g.raw(6) : g.chance(1, 4) ? g.u64any() >> 1 : g.raw(30); BB p = id(n), z = q; for (u64 f = e; f; f >>= 1, z = mul(z, z, n)) if (f & 1) p = mul(p, z, n); CKM(rd(Q.pow(e)) == p, "power"); CK(rd(suisen::MatrixF2::e1(n)) == id(n)); CK(rd(suisen::MatrixF2::e0(n)) == BB(n, B(n))); g.nontrivial(n >= 3 && k >= 3 && r < std::min(n, k)); }
PBT(gaussian_elimination_f2, 12000, "rank at least 2, more columns than the rank, consistent") { int n = dim(g), k = dim(g); auto a = gm(g, n, k); B b(n); if (g.chance(2, 3)) { for (int j = 0; j < k; ++j) if (g.coin()) for (int i = 0; i < n; ++i) b[i] ^= a[i][j]; if (g.chance(1, 4)) b[g.raw(n)] ^= 1; } else for (auto& x : b) x = g.coin(); if (n < 10 && k < 10) g.note(a, " = ", b); suisen::DynamicBitSet bb(n); for (int i = 0; i < n; ++i) bb[i] = bool(b[i]); BB ab = a; for (int i = 0; i < n; ++i) ab[i].push_back(b[i]); int r = rk(a); bool ok = rk(ab) == r; auto s = suisen::gaussian_elimination_f2(mk(a, k), bb); EQ(s.has_solution(), ok); if (ok) { EQ((int)s.solution().size(), k); auto ap = [&](const suisen::DynamicBitSet& x) { B y(n); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) y[i] ^= a[i][j] & (char)(bool)x[j]; return y; }; CKM(ap(s.solution()) == b, "not a solution"); EQ(s.dim(), k - r); EQ(s.rank(), r); EQ((int)s.basis().size(), k - r); BB bs; for (auto& v : s.basis()) { CKM(ap(v) == B(n), "basis vector outside the kernel"); B w; for (int j = 0; j < k; ++j) w.push_back((bool)v[j]); bs.push_back(w); } if (bs.size()) EQ(rk(bs), k - r); } g.nontrivial(ok && r >= 2 && k > r); }
static std::set<u64> span_of(const std::vector<suisen::DynamicBitSet>& b) { std::set<u64> s{ 0 }; for (auto& v : b) { u64 x = 0; for (int j = 0; j < (int)v.size(); ++j) x |= (u64)(bool)v[j] << j; auto t = s; for (u64 e : s) t.insert(e ^ x); s = t; } return s; }
PBT(solution_space_algebra, 10000, "non-trivial proper intersection") { using S = suisen::SolutionSpace; int k = g.in(1, 6); auto gs = [&] { std::vector<suisen::DynamicBitSet> v; for (int c = g.in(0, 5); c--;) { suisen::DynamicBitSet x(k); for (int j = 0; j < k; ++j) x[j] = g.coin(); v.push_back(x); } return v; }; auto a = gs(), b = gs(); suisen::DynamicBitSet zero(k); S A(zero, a), Bs(zero, b); auto sa = span_of(a), sb = span_of(b); S An = A.normalized(), Bn = Bs; Bn.normalize(); CKM(span_of(An.basis()) == sa, "normalized"); CKM(span_of(Bn.basis()) == sb, "normalize"); EQ(1u << An.dim(), (unsigned)sa.size()); EQ(An.rank(), k - An.dim()); CK(An.has_solution()); std::vector<suisen::DynamicBitSet> ab = a; ab.insert(ab.end(), b.begin(), b.end()); auto su = An + Bs; CKM(span_of(su.basis()) == span_of(ab), "sum"); EQ(1u << su.dim(), (unsigned)span_of(ab).size()); std::set<u64> in; for (u64 x : sa) if (sb.count(x)) in.insert(x); { auto c = An & Bn; CKM(span_of(c.basis()) == in, "intersection"); EQ(1u << c.dim(), (unsigned)in.size()); auto d = An; d &= Bn; CKM(span_of(d.basis()) == in, "intersection"); } suisen::DynamicBitSet x(k); u64 xv = 0; for (int j = 0; j < k; ++j) if (g.coin()) x[j] = true, xv |= 1ull << j; S C = An; EQ(C.add_base(x), !sa.count(xv)); ab = a; ab.push_back(x); CK(span_of(C.basis()) == span_of(ab)); g.nontrivial(in.size() > 1 && in.size() < sa.size() && in.size() < sb.size()); }
