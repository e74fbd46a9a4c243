#include "common.hpp"
#include "library/number/bezout_equation.hpp"
using namespace hv;
// 0x + 0y = 0: every pair is a solution, so the extreme solutions are the box corners
PBT(bezout_arbitrary, 3000, "a box with more than one point") {
    suisen::BezoutEquation e(0, 0); auto s = e.solve(0); CK(s.has_solution()); CK(!e.solve(g.in(1, 9)).has_solution()); i64 a = g.range(-50, 50), b = a + g.range(-3, 30), c = g.range(-50, 50), d = c + g.range(-3, 30); bool ok = a <= b && c <= d; bool r1 = s.set_x_range(a, b), r2 = s.set_y_range(c, d); EQ(r1, a <= b); EQ(r2, ok); EQ(s.has_solution(), ok); if (!ok) return;
    EQ(s.xmin_solution().first, a); EQ(s.xmax_solution().first, b); EQ(s.ymin_solution().second, c); EQ(s.ymax_solution().second, d); for (auto [x, y] : { s.xmin_solution(), s.xmax_solution(), s.ymin_solution(), s.ymax_solution() }) CK(a <= x && x <= b && c <= y && y <= d); g.nontrivial(a < b);
}
