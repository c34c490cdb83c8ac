// Broad phase of RigidBody2D systems.
// OPT fpto_safety false
// NATIVEONLY gridMany gridFar
#include "st_rb2d.h"
#include "rigidbody2d/SpatialGrid.h"
static AABB mk(const Array2s& a, const Array2s& b) { return AABB{a, b}; }
#include "c06.h"
VC(overlaps) { overlapsExact<2>(); }
static void G(const std::vector<AABB>& b, Pairs& p) { SpatialGrid::getPotentialOverlaps(b, p); }
// BOUND grid.* 1 1
// SECS grid.* 240
VC(gridEqual) { grid<2>(G, 0, 0); }
VC(gridUnequal) { grid<2>(G, 1, 2); }
VC(gridAcross) { grid<2>(G, 1, 3); }
VC(gridMany) { gridMany<2>(G); }
// TRIALS gridFar 4000
VC(gridFar) { gridFar<2>(G); }
#define TR "the boxes reported for a trial box are exactly those it overlaps, in order"
// BOUND trial 2 3
VC(trial)
{
  const long n = vc_size("n", 0, 8); std::vector<AABB> b; const Array2s a = arr<2>("a"), c = a + arrPos<2>("ac"); std::vector<bool> m; for (long i = 0; i < n; ++i) { const Array2s l = arr<2>("lo"), h = l + arrPos<2>("ext"); b.push_back(mk(l, h)); m.push_back(meet<2>(l, h, a, c)); }
  std::vector<unsigned> r; SpatialGrid::getPotentialOverlaps(mk(a, c), b, r); size_t k = 0; for (long i = 0; i < n; ++i) if (m[size_t(i)]) { vc_assert(k < r.size() && r[k] == unsigned(i), TR); ++k; } vc_eqi(long(r.size()), long(k), TR); vc_cover("done");
}
#define EN "the bounding box of a body is the smallest one that encloses it"
#define SW "the swept box of a circle encloses it at both ends of the step, that of a box is its box at the end of the step"
VC(circle)
{
  const scalar r = vc_pos("r"); const CircleGeometry g{r}; const Vector2s x = vc_vec2("x"), y = vc_vec2("y"); const scalar t = vc_real("t"), u = vc_real("u"); Array2s lo, hi; g.computeAABB(x, t, lo, hi); for (int k = 0; k < 2; ++k) { vc_eq(lo(k), x(k) - r, EN); vc_eq(hi(k), x(k) + r, EN); }
  g.computeCollisionAABB(x, t, y, u, lo, hi); for (int k = 0; k < 2; ++k) { vc_eq(lo(k), (x(k) < y(k) ? x(k) : y(k)) - r, SW); vc_eq(hi(k), (x(k) > y(k) ? x(k) : y(k)) + r, SW); } vc_cover("done");
}
static void tight(const Vector2s& x, scalar t, const Vector2s& w, const Array2s& lo, const Array2s& hi, const char* what)
{
  bool tl[2] = {false, false}, th[2] = {false, false}; const scalar e = vc_native() ? 1e-12 : 0.0; const scalar c = std::cos(t), s = std::sin(t);
  for (int i = 0; i < 4; ++i) { const Vector2s p(i & 1 ? w.x() : -w.x(), i & 2 ? w.y() : -w.y()); const scalar v[2] = {x.x() + c * p.x() - s * p.y(), x.y() + s * p.x() + c * p.y()}; for (int k = 0; k < 2; ++k) { vc_assert((lo(k) <= v[k] + e) & (v[k] <= hi(k) + e), what); tl[k] |= v[k] <= lo(k) + e; th[k] |= v[k] >= hi(k) - e; } }
  for (int k = 0; k < 2; ++k) { vc_assert(tl[k], what); vc_assert(th[k], what); }
}
VC(box) { const Vector2s w(vc_pos("wx"), vc_pos("wy")), x = vc_vec2("x"), y = vc_vec2("y"); const scalar t = vc_real("t"), u = vc_real("u"); const BoxGeometry g{w}; Array2s lo, hi; g.computeAABB(x, t, lo, hi); tight(x, t, w, lo, hi, EN); g.computeCollisionAABB(x, t, y, u, lo, hi); tight(y, u, w, lo, hi, SW); vc_cover("done"); }
#define BB "the bounding box of a system is the smallest one that encloses all its bodies"
// BOUND whole 1 1
VC(whole)
{
  const long n = vc_size("n", 1, 4); Rb2d m = makeBodies2d(n, 2); const RigidBody2DState& s = m.state(); const Array4s r = s.computeBoundingBox(); const scalar e = vc_native() ? 1e-12 : 0.0; bool t[4] = {false, false, false, false};
  for (long i = 0; i < n; ++i) { Array2s lo, hi; s.bodyGeometry(unsigned(i))->computeAABB(s.q().segment<2>(3 * i), s.q()(3 * i + 2), lo, hi); for (int k = 0; k < 2; ++k) { vc_assert((r(k) <= lo(k) + e) & (r(2 + k) >= hi(k) - e), BB); t[k] |= r(k) == lo(k); t[2 + k] |= r(2 + k) == hi(k); } }
  for (int k = 0; k < 4; ++k) vc_assert(t[k], BB); vc_cover("done");
}
