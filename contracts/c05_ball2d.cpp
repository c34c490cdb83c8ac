// Narrow phase of Ball2D systems.  In symbolic runs the spatial grid is replaced by its contract (C06: every pair of overlapping boxes is reported): the boxes it is given must enclose
// the balls over the step, and it reports all pairs.  Native runs use the real grid.
// NATIVEONLY activeMany activePortalsMany
// OPT fpto_safety false
#include "st_ball2d.h"
#include "scisim/CollisionDetection/CollisionDetectionUtilities.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
#include "ball2d/PythonScripting.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
#include "ball2d/Constraints/BallStaticDrumConstraint.h"
#include "ball2d/Constraints/KinematicKickBallBallConstraint.h"
#include "ball2d/SpatialGridDetector.h"
#include "ball2d/Ball2DSim.h"
#define BX "every ball lies in its bounding box at the start and at the end of the step"
#ifndef VC_NATIVE
static std::vector<Vector2s> g_lo, g_hi;
namespace SpatialGridDetector { static void vcGrid(const std::vector<AABB>& b, std::set<std::pair<unsigned, unsigned>>& out)
{
  const size_t m = g_lo.size() / 2; vc_assert(b.size() >= m, BX); for (size_t j = 0; j < g_lo.size(); ++j) for (int k = 0; k < 2; ++k) { const size_t i = j < m ? j : j - m; vc_le(b[i].min()(k), g_lo[j](k), BX); vc_le(g_hi[j](k), b[i].max()(k), BX); }
  for (unsigned i = 0; i < b.size(); ++i) for (unsigned j = i + 1; j < b.size(); ++j) out.insert(std::make_pair(i, j));
} }
#define getPotentialOverlaps vcGrid
#endif
#include "ball2d/Ball2DSim.cpp"
#undef getPotentialOverlaps
#define BB "two balls touch exactly when their centres are no further apart than the sum of the radii"
#define BP "a ball touches a plane exactly when its centre is no further than its radius in front of it"
#define BD "a ball touches a drum exactly when it is not strictly inside it"
#define PD "the penetration depth is the overlap as a negative number, zero for a separated pair"
#define CM "a reported continuous collision is the first touching time of the motion, within the step"
#define CN "when no continuous collision is reported the balls do not touch at any time of the step"
#define AS "the active set has one contact for each touching pair, with the normal at the start of the step, and no other"
static void apart2(scalar d) { if (vc_native()) vc_assume(std::fabs(d) > 1e-9); }
VC(ballBallTouch)
{
  const long n = vc_size("n", 2, 1000000); const unsigned i = unsigned(vc_int("i", 0, n - 2)), j = unsigned(vc_int("j", 1, n - 1)); vc_assume(i < j); VectorXs q = vc_vecx("q", 2 * n), r = vc_vecx("r", n); r(i) = vc_pos("r0"); r(j) = vc_pos("r1");
  if (vc_native()) { q(2 * i) = vc_real_in("x", -2, 2); q(2 * i + 1) = vc_real_in("y", -2, 2); q(2 * j) = 0; q(2 * j + 1) = 0; }
  const scalar dx = q(2 * i) - q(2 * j), dy = q(2 * i + 1) - q(2 * j + 1), g = dx * dx + dy * dy - (r(i) + r(j)) * (r(i) + r(j)); apart2(g);
  vc_assert(BallBallConstraint::isActive(i, j, q, r) == (g <= 0), BB); vc_assert(BallBallConstraint::isActive(Vector2s(q(2 * i), q(2 * i + 1)), Vector2s(q(2 * j), q(2 * j + 1)), r(i), r(j)) == (g <= 0), BB); vc_cover("done");
}
VC(ballPlaneTouch)
{
  const long n = vc_size("n", 1, 1000000); const unsigned i = unsigned(vc_int("i", 0, n - 1)); VectorXs q = vc_vecx("q", 2 * n), r = vc_vecx("r", n); r(i) = vc_pos("ri"); const Vector2s x = vc_vec2("x"), nn = vc_unit2("n");
  const scalar d = nn.x() * (q(2 * i) - x.x()) + nn.y() * (q(2 * i + 1) - x.y()) - r(i); apart2(d); vc_assert(StaticPlaneConstraint::isActive(i, q, r, x, nn) == (d <= 0), BP); vc_cover("done");
}
VC(ballDrumTouch)
{
  const long n = vc_size("n", 1, 1000000); const unsigned i = unsigned(vc_int("i", 0, n - 1)); VectorXs q = vc_vecx("q", 2 * n), r = vc_vecx("r", n); r(i) = vc_pos("ri"); const Vector2s X = vc_vec2("X"); const scalar gap = vc_pos("gap"), R = r(i) + gap;
  const scalar dx = q(2 * i) - X.x(), dy = q(2 * i + 1) - X.y(), g = dx * dx + dy * dy - gap * gap; apart2(g); vc_assert(StaticDrumConstraint::isActive(i, q, r, X, R) == (g >= 0), BD); vc_cover("done");
}
VC(depths)
{
  const long n = vc_size("n", 2, 1000000); const unsigned i = unsigned(vc_int("i", 0, n - 2)), j = unsigned(vc_int("j", 1, n - 1)); vc_assume(i < j); VectorXs q = vc_vecx("q", 2 * n); const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1"); const Vector2s d(q(2 * i) - q(2 * j), q(2 * i + 1) - q(2 * j + 1)); vc_assume((d.x() != 0) | (d.y() != 0));
  const scalar l = std::sqrt(d.x() * d.x() + d.y() * d.y()) - (r0 + r1); const BallBallConstraint c{i, j, q, r0, r1, false}; vc_eq(static_cast<const Constraint&>(c).penetrationDepth(q), l < 0 ? l : 0.0, PD);
  StaticPlane p = plane("p"); const StaticPlaneConstraint s{i, r0, p, 0}; const scalar e = p.n().dot(q.segment<2>(2 * i) - p.x()) - r0; vc_eq(static_cast<const Constraint&>(s).penetrationDepth(q), e < 0 ? e : 0.0, PD); vc_cover("done");
}
// q0 + t (q1 - q0), t in [0,1]
struct Ccd { Vector2s a, b, c, d; scalar ra, rb; scalar p(scalar t) const { const scalar x = (a.x() - c.x()) + t * ((b.x() - d.x()) - (a.x() - c.x())), y = (a.y() - c.y()) + t * ((b.y() - d.y()) - (a.y() - c.y())); return x * x + y * y - (ra + rb) * (ra + rb); } };
static Ccd ccd() { Ccd k; k.a = vc_vec2("q0a"); k.b = vc_vec2("q1a"); k.c = vc_vec2("q0b"); k.d = vc_vec2("q1b"); k.ra = vc_pos("ra"); k.rb = vc_pos("rb"); return k; }
VC(ccdCoefficients) { const Ccd k = ccd(); const Vector3s c = CollisionDetectionUtilities::computeCCDQuadraticCoeffs(k.a, k.b, k.ra, k.c, k.d, k.rb); const scalar t = vc_real("t"); vc_eq(c(0) + t * c(1) + t * t * c(2), k.p(t), "the squared distance during the step is the quadratic that is solved"); vc_assert(c(2) >= 0, "the squared distance during the step is the quadratic that is solved"); vc_cover("done"); }
// any quadratic c0 + c1 t + c2 t^2 of a motion: c2 >= 0, and constant when c2 == 0
VC(ccdSolve)
{
  const bool moving = vc_choose("moving", 2) != 0; const bool touching = vc_choose("touching", 2) != 0; Vector3s c; c(0) = touching ? 0.0 : vc_real("c0"); c(1) = moving ? vc_real("c1") : 0.0; c(2) = moving ? vc_pos("c2") : 0.0; if (vc_native() && moving) vc_assume((std::fabs(c(1) * c(1) - 4 * c(2) * c(0)) > 1e-6) & (c(2) > 1e-3));
  const std::pair<bool, scalar> h = CollisionDetectionUtilities::ballBallCCDCollisionHappens(c); const scalar tol = vc_native() && moving ? 1e-9 : 0;
  if (h.first) { const scalar t = h.second; vc_le(0, t, CM); vc_le(t, 1 + tol, CM); vc_le(c(0) + t * c(1) + t * t * c(2), vc_native() ? 1e-9 * (1 + std::fabs(c(0)) + std::fabs(c(1)) + c(2)) : 0.0, CM); const scalar u = vc_real_in("u", 0, 1), s = u * t; vc_assume(u < 1); vc_le(t > 0 ? 0.0 : -1.0, t > 0 ? c(0) + s * c(1) + s * s * c(2) + tol : 0.0, CM); vc_cover("collides"); }
  else { const scalar t = vc_real_in("t", 0, 1); vc_assert(c(0) + t * c(1) + t * t * c(2) > -tol, CN); vc_cover("misses"); }
}
VC(ccdBalls)
{
  const Ccd k = ccd(); if (vc_native()) { const Vector2s w = (k.b - k.d) - (k.a - k.c); vc_assume(w.norm() > 1e-2); }
  const std::pair<bool, scalar> h = CollisionDetectionUtilities::ballBallCCDCollisionHappens(k.a, k.b, k.ra, k.c, k.d, k.rb), g = CollisionDetectionUtilities::ballBallCCDCollisionHappens(CollisionDetectionUtilities::computeCCDQuadraticCoeffs(k.a, k.b, k.ra, k.c, k.d, k.rb));
  vc_assert(h.first == g.first, CM); if (h.first) vc_eq(h.second, g.second, CM); vc_cover("done");
}
// two balls that touch at some time of the step have overlapping bounding boxes (so the grid reports them)
VC(touchingBoxes)   // a lemma about the oracle: exact arithmetic only
{
  if (vc_native()) { vc_cover("done"); return; }
  const Ccd k = ccd(); const scalar t = vc_real_in("t", 0, 1); const int d = int(vc_choose("d", 2)); vc_assume(k.p(t) <= 0); const scalar R = k.ra + k.rb, D = (k.a(d) - k.c(d)) + t * ((k.b(d) - k.d(d)) - (k.a(d) - k.c(d))), e = k.p(t) + R * R - D * D;
  vc_assert(e >= 0, BX); vc_assert(D * D <= R * R, BX); vc_assume(D * D <= R * R); const bool in = (D <= R) & (-R <= D); vc_assert(in, BX); vc_assume(in);
  const scalar u = 1 - t, la = k.a(d) < k.b(d) ? k.a(d) : k.b(d), ua = k.a(d) < k.b(d) ? k.b(d) : k.a(d), lc = k.c(d) < k.d(d) ? k.c(d) : k.d(d), uc = k.c(d) < k.d(d) ? k.d(d) : k.c(d);
  const scalar xa = u * k.a(d) + t * k.b(d), xc = u * k.c(d) + t * k.d(d); vc_eq(xa - xc, D, BX);
  const bool m = (la <= xa) & (xa <= ua) & (lc <= xc) & (xc <= uc); vc_assert(m, BX); vc_assume(m); vc_le(la - k.ra, uc + k.rb, BX); vc_le(lc - k.rb, ua + k.ra, BX); vc_cover("done");
}
namespace { struct Fnd { long k; const Constraint* c; }; }
// contacts of the set between i and j (either order), j < 0: static object
static Fnd find(const std::vector<std::unique_ptr<Constraint>>& as, long i, long j) { Fnd f{0, nullptr}; for (const auto& c : as) { std::pair<int, int> b; c->getBodyIndices(b); const bool t = typeid(*c) == typeid(BallBallConstraint); if (t && ((b.first == i && b.second == j) || (b.first == j && b.second == i))) { ++f.k; f.c = c.get(); } } return f; }
static void normalIs(const Fnd& f, const VectorXs& q0, const Vector2s& n) { VectorXs m; f.c->getWorldSpaceContactNormal(q0, m); vc_eqi(m.size(), 2, AS); vc_eq(m(0), n.x(), AS); vc_eq(m(1), n.y(), AS); }
static void clear(const Vector2s& a, const Vector2s& b) { const Vector2s d = a - b; if (vc_native()) vc_assume(d.norm() > 1e-3); else vc_assume((d.x() != 0) | (d.y() != 0)); }
static void simActive(long n, long nd, long np)
{
  Ball2DSim sim; makeBalls(sim.state(), n); Ball2DState& st = sim.state(); for (long i = 0; i < nd; ++i) st.staticDrums().emplace_back(vc_vec2("X"), vc_pos("R") + (n > 0 ? st.r().sum() : 0.0)); for (long i = 0; i < np; ++i) st.staticPlanes().push_back(plane("p"));
  const VectorXs q0 = vc_vecx("q0", 2 * n), q1 = vc_vecx("q1", 2 * n), v = vc_vecx("v", 2 * n);
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) clear(q0.segment<2>(2 * i), q0.segment<2>(2 * j));
  for (long d = 0; d < nd; ++d) for (long i = 0; i < n; ++i) clear(q0.segment<2>(2 * i), st.staticDrums()[size_t(d)].x());
#ifndef VC_NATIVE
  for (const VectorXs* q : {&q0, &q1}) for (long i = 0; i < n; ++i) { g_lo.push_back(q->segment<2>(2 * i) - Vector2s::Constant(st.r()(i))); g_hi.push_back(q->segment<2>(2 * i) + Vector2s::Constant(st.r()(i))); }
#endif
  std::vector<std::unique_ptr<Constraint>> as; static_cast<ConstrainedSystem&>(sim).computeActiveSet(q0, q1, v, as); long total = 0;
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) {
    const std::pair<bool, scalar> h = CollisionDetectionUtilities::ballBallCCDCollisionHappens(q0.segment<2>(2 * i), q1.segment<2>(2 * i), st.r()(i), q0.segment<2>(2 * j), q1.segment<2>(2 * j), st.r()(j));
    const Fnd f = find(as, i, j); vc_eqi(f.k, h.first ? 1 : 0, AS); total += f.k; if (f.c && h.first) { std::pair<int, int> b; f.c->getBodyIndices(b); const Vector2s d = q0.segment<2>(2 * b.first) - q0.segment<2>(2 * b.second); normalIs(f, q0, d / std::sqrt(d.x() * d.x() + d.y() * d.y())); } }
  for (long d = 0; d < nd; ++d) for (long i = 0; i < n; ++i) { long k = 0; const StaticDrum& D = st.staticDrums()[size_t(d)]; const Vector2s e = q1.segment<2>(2 * i) - D.x(); const scalar s = D.r() - st.r()(i), g = e.x() * e.x() + e.y() * e.y() - s * s; apart2(g);
    for (const auto& c : as) { if (typeid(*c) != typeid(StaticDrumConstraint)) continue; const StaticDrumConstraint* s2 = static_cast<const StaticDrumConstraint*>(c.get()); std::pair<int, int> b; c->getBodyIndices(b); if (b.first == i && s2->getStaticObjectIndex() == d) { ++k; const Vector2s o = D.x() - q0.segment<2>(2 * i); normalIs(Fnd{1, c.get()}, q0, o / std::sqrt(o.x() * o.x() + o.y() * o.y())); } } vc_eqi(k, g >= 0 ? 1 : 0, AS); total += k; }
  for (long p = 0; p < np; ++p) for (long i = 0; i < n; ++i) { long k = 0; const StaticPlane& P = st.staticPlanes()[size_t(p)]; const scalar g = P.n().dot(q1.segment<2>(2 * i) - P.x()) - st.r()(i); apart2(g);
    for (const auto& c : as) { if (typeid(*c) != typeid(StaticPlaneConstraint)) continue; const StaticPlaneConstraint* s2 = static_cast<const StaticPlaneConstraint*>(c.get()); std::pair<int, int> b; c->getBodyIndices(b); if (b.first == i && s2->getStaticObjectIndex() == p) { ++k; normalIs(Fnd{1, c.get()}, q0, P.n()); } } vc_eqi(k, g <= 0 ? 1 : 0, AS); total += k; }
  vc_eqi(long(as.size()), total, AS); vc_cover("done");
}
// BOUND activeBalls 2 3
VC(activeBalls) { simActive(vc_size("n", 0, 3), 0, 0); }
// BOUND activeStatics 1 1
VC(activeStatics) { const long k = vc_choose("k", 3); simActive(vc_size("n", 0, 1), k == 0 ? 2 : k == 2, k == 1 ? 2 : k == 2); }
VC(activeMany) { if (!vc_native()) { vc_cover("done"); return; } simActive(vc_int("n", 0, 12), vc_int("nd", 0, 2), vc_int("np", 0, 2)); }
// portals
static bool touches(const PlanarPortal& P, const Vector2s& x, scalar r, bool second) { const StaticPlane& p = second ? P.planeB() : P.planeA(); const scalar d = p.n().dot(x - p.x()) - r; apart2(d); return d <= 0; }
static void tele(const PlanarPortal& P, const Vector2s& x, bool second, Vector2s& y) { if (second) P.teleportPointThroughPlaneB(x, y); else P.teleportPointThroughPlaneA(x, y); }
static bool isTele(const Constraint& c) { return c.name().compare(0, 10, "teleported") == 0; }
#include "c05_portal.h"
static void portals(long n, long np, bool le)
{
  Ball2DSim sim; makeBalls(sim.state(), n); Ball2DState& st = sim.state(); std::vector<scalar> pv; VectorXs q0 = vc_vecx("q0", 2 * n), q1 = vc_vecx("q1", 2 * n); const scalar W = vc_native() ? vc_real_in("W", 1, 3) : 0.0;
  if (vc_native()) for (long i = 0; i < n; ++i) st.r()(i) = vc_real_in("rad", 0.05, 0.3);
  for (long p = 0; p < np; ++p) {
    if (vc_native()) { const Vector2s e(p == 0, p == 1), o = vc_vec2("o"); const bool l = le && p == 0; const scalar v = l ? vc_real_in("pv", -3, 3) : 0.0; pv.push_back(v); st.planarPortals().emplace_back(StaticPlane{Vector2s(-0.5 * W * e + 0.1 * o.x() * Vector2s(e.y(), -e.x())), e}, StaticPlane{Vector2s(0.5 * W * e + 0.1 * o.y() * Vector2s(e.y(), -e.x())), Vector2s(-e)}, v, l ? 0.5 * W : 0.0); if (l) st.planarPortals().back().updateMovingPortals(vc_real_in("time", 0, 4)); }
    else { const Vector2s nn = vc_unit2("pn"); pv.push_back(0); st.planarPortals().emplace_back(StaticPlane{vc_vec2("Ax"), nn}, StaticPlane{vc_vec2("Bx"), Vector2s(-nn)}, 0.0, 0.0); } }
  if (vc_native()) for (long i = 0; i < 2 * n; ++i) { q1(i) = vc_real_in("p", -0.55, 0.55) * W; q0(i) = q1(i) + vc_real_in("dq", -0.01, 0.01); }
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) clear(q0.segment<2>(2 * i), q0.segment<2>(2 * j));
#ifndef VC_NATIVE
  // the first ball does not touch plane B (the portal is symmetric)
  if (n) { const StaticPlane& p = st.planarPortals()[0].planeB(); vc_assume(p.n().dot(q1.segment<2>(0) - p.x()) > st.r()(0)); }
  for (int k = 0; k < 2; ++k) for (long i = 0; i < n; ++i) { g_lo.push_back(q1.segment<2>(2 * i) - Vector2s::Constant(st.r()(i))); g_hi.push_back(q1.segment<2>(2 * i) + Vector2s::Constant(st.r()(i))); }
#endif
  portalActive<2>(sim, st.planarPortals(), pv, st.r(), n, q0, q1, le);
}
// BOUND activePortal 2 2
// SECS activePortal 300
VC(activePortal) { portals(2, 1, false); }
VC(activePortalsMany) { if (!vc_native()) { vc_cover("done"); return; } portals(vc_int("n", 0, 8), vc_int("np", 1, 2), vc_bool("le") != 0); }
