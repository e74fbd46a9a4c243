#include "common.hpp"
#include <sstream>
#include <complex>
#include <cmath>
#include "library/geom/geometry.hpp"
#include "library/geom/geometry3d.hpp"
using namespace hv; namespace ge = suisen::geometry; namespace g3 = suisen::geometry3d; using ld = long double;
static bool near(ld a, ld b) { return std::abs(a - b) <= 1e-9L * std::max((ld)1, std::abs(b)); }
PBT(point_and_real, 8000, "every case") { using namespace suisen::geometry; ld x = g.in(-50, 50), y = g.in(-50, 50), r = g.in(1, 20) * (g.coin() ? 1 : -1); Point p(x, y); Point a = p + r, b = p - r, c = p * r, d = p / r, e = r + p, f = r - p, h = r * p; CK(near(a.real(), x + r) && a.imag() == y); CK(near(b.real(), x - r) && b.imag() == y); CK(near(c.real(), x * r) && near(c.imag(), y * r)); CK(near(d.real(), x / r) && near(d.imag(), y / r)); CK(near(e.real(), x + r) && e.imag() == y); CK(near(f.real(), r - x) && near(f.imag(), -y)); CK(near(h.real(), x * r) && near(h.imag(), y * r)); if (x || y) { Point q = r / p; Point o = q * p; CK(near(o.real(), r) && std::abs(o.imag()) < 1e-9L); }
    std::ostringstream os; os << p; std::istringstream is(os.str() + " 3 4"); Point s, t; is >> s >> t; CK(s == p && t == Point(3, 4)); EQ(os.str(), std::to_string((int)x) + " " + std::to_string((int)y)); g.nontrivial(); }
template <class L> static void bind(Gen& g) { ge::Point p(g.in(-9, 9), g.in(-9, 9)), q(g.in(-9, 9), g.in(-9, 9)), z(7, 11); L l(p, q); const L& c = l; { const auto& [a, b] = c; CK(a == p && b == q); } { auto [a, b] = l; CK(a == p && b == q); } { auto& [a, b] = l; a = z; CK(l.a == z && l.b == q); b = p; CK(l.b == p); } L d; CK(d.a == ge::Point(0, 0) && d.b == ge::Point(0, 0)); }
PBT(structured_bindings, 3000, "every case") { bind<ge::Line>(g); bind<ge::Ray>(g); bind<ge::Segment>(g); ge::Point p(g.in(-9, 9), g.in(-9, 9)), a(g.in(-9, 9), g.in(-9, 9)), b = a + ge::Point(g.in(1, 9), g.in(-9, 9)); ge::Line l(a, b); ld cr = (b - a).real() * (p - a).imag() - (b - a).imag() * (p - a).real(), L = std::norm(b - a); CK(near(ge::square_distance(l, p), cr * cr / L) && near(ge::square_distance(p, l), cr * cr / L)); g.nontrivial(); }
PBT(space_points, 3000, "every case") { using namespace suisen::geometry3d; g3::Point p{ (ld)g.in(-99, 99), (ld)g.in(-99, 99), (ld)g.in(-99, 99) }; std::ostringstream os; os << p; std::istringstream is(os.str()); g3::Point q; is >> q; CK(p == q); int k = g.in(0, 1000); CK(std::abs(g3::math::sqrt<double>(k) - std::sqrt((double)k)) < 1e-12 * (1 + k)); CK(std::abs(g3::math::sqrt<float>(k) - std::sqrt((float)k)) < 1e-3f); CK(std::abs(g3::math::sqrt<ld>(k) - std::sqrt((ld)k)) < 1e-15L * (1 + k)); CK(g3::math::sqrt<i64>((i64)k * k) == k); g.nontrivial(); }
