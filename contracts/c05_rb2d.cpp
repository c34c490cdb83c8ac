// Narrow phase of RigidBody2D systems.  In symbolic runs of the active set the spatial grid is replaced by its contract (C06) and the box tools by theirs (proved or tested below);
// native runs use the real ones.
// NATIVEONLY activeMany activePortalsMany boxBoxPoints
// OPT fpto_safety false
#include "st_rb2d.h"
#include "scisim/CollisionDetection/CollisionDetectionUtilities.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
#include "rigidbody2d/PythonScripting.h"
#include "rigidbody2d/SpatialGrid.h"
#include "rigidbody2d/BoxBoxTools.h"
#include "rigidbody2d/CircleBoxTools.h"
#include "rigidbody2d/CircleCircleConstraint.h"
#include "rigidbody2d/BodyBodyConstraint.h"
#include "rigidbody2d/KinematicObjectCircleConstraint.h"
#include "rigidbody2d/StaticPlaneBodyConstraint.h"
#include "rigidbody2d/StaticPlaneCircleConstraint.h"
#include "rigidbody2d/TeleportedCircleCircleConstraint.h"
#include "rigidbody2d/KinematicKickCircleCircleConstraint.h"
#include "rigidbody2d/RigidBody2DSim.h"
#define BX "every body lies in its bounding box over the step"
#ifndef VC_NATIVE
static std::vector<Vector2s> g_lo, g_hi;
namespace SpatialGrid { static void vcGrid(const std::vector<AABB>& b, std::set<std::pair<unsigned, unsigned>>& out)
{
  const size_t m = g_lo.size() / 2; vc_assert(b.size() >= m, BX); for (size_t j = 0; j < g_lo.size(); ++j) for (int k = 0; k < 2; ++k) { const size_t i = j < m ? j : j - m; vc_le(b[i].min()(k), g_lo[j](k), BX); vc_le(g_hi[j](k), b[i].max()(k), BX); }
  for (unsigned i = 0; i < b.size(); ++i) for (unsigned j = i + 1; j < b.size(); ++j) out.insert(std::make_pair(i, j));
} }
// any answer of the box tools; what they were asked is recorded
namespace { struct Ask { Vector2s x0; scalar t0; Vector2s r0, x1; scalar t1; Vector2s r1, n; std::vector<Vector2s> p; long kind; }; std::vector<Ask> g_asks; }
struct VcBoxBox { static void isActive(const Vector2s& x0, const scalar& t0, const Vector2s& r0, const Vector2s& x1, const scalar& t1, const Vector2s& r1, Vector2s& n, std::vector<Vector2s>& points)
{ Ask a{x0, t0, r0, x1, t1, r1, vc_unit2("boxn"), {}, 0}; const long k = vc_choose("npoints", 3); for (long i = 0; i < k; ++i) a.p.push_back(vc_vec2("boxp")); n = a.n; for (const Vector2s& p : a.p) points.push_back(p); g_asks.push_back(a); } };
struct VcCircleBox { static bool isActive(const Vector2s& x0, const scalar& r0, const Vector2s& x1, const scalar& t1, const Vector2s& r1, Vector2s& n, Vector2s& p)
{ Ask a{x0, 0, Vector2s(r0, r0), x1, t1, r1, vc_unit2("boxn"), {}, 1}; if (vc_choose("npoints", 2)) a.p.push_back(vc_vec2("boxp")); n = a.n; if (!a.p.empty()) p = a.p[0]; g_asks.push_back(a); return !a.p.empty(); } };
namespace CollisionDetectionUtilities { static std::pair<bool, scalar> vcCcd(const Vector2s& q0a, const Vector2s& q1a, const scalar& ra, const Vector2s& q0b, const Vector2s& q1b, const scalar& rb)
{ Ask a{q0a, 0, Vector2s(ra, rb), q0b, 0, q1a, q1b, {}, 2}; const bool h = vc_choose("ccd", 2) != 0; if (h) a.p.push_back(Vector2s::Zero()); g_asks.push_back(a); return std::make_pair(h, h ? vc_real_in("ccdt", 0, 1) : 0.0); } }
#define ballBallCCDCollisionHappens vcCcd
#define getPotentialOverlaps vcGrid
#define BoxBoxTools VcBoxBox
#define CircleBoxTools VcCircleBox
#endif
#include "rigidbody2d/RigidBody2DSim.cpp"
#undef ballBallCCDCollisionHappens
#undef getPotentialOverlaps
#undef BoxBoxTools
#undef CircleBoxTools
#define BB "two circles touch exactly when their centres are no further apart than the sum of the radii"
#define BP "a circle touches a plane exactly when its centre is no further than its radius in front of it"
#define CB "a circle touches a box exactly when the point of the box nearest to its centre is within the radius"
#define CN "the contact normal points from the nearest point of the box to the centre of the circle"
#define CP "the contact point is halfway through the overlap"
#define CI "a circle whose centre is inside the box touches it, with the outward normal of a side as the contact normal"
#define SA "two boxes touch exactly when no side direction of either separates them"
#define SN "the contact normal of two boxes is the side direction of least overlap, pointing to the first box"
#define SP "every contact point of two boxes is halfway between a point of the reference side of one box and a point of the other box"
#define PD "the penetration depth is the overlap as a negative number, zero for a separated pair"
#define AS "the active set has one contact for each touching pair, built from the configuration at the start of the step, and no other"
static void apart2(scalar d) { if (vc_native()) vc_assume(std::fabs(d) > 1e-9); }
static Vector2s rot(scalar t, const Vector2s& a) { const scalar c = std::cos(t), s = std::sin(t); return Vector2s(c * a.x() - s * a.y(), s * a.x() + c * a.y()); }
static Vector2s unrot(scalar t, const Vector2s& a) { const scalar c = std::cos(t), s = std::sin(t); return Vector2s(c * a.x() + s * a.y(), -s * a.x() + c * a.y()); }
VC(circleTouch) { const Vector2s a = vc_vec2("a"), b = vc_vec2("b"); const scalar r = vc_pos("r"), s = vc_pos("s"), g = (a.x() - b.x()) * (a.x() - b.x()) + (a.y() - b.y()) * (a.y() - b.y()) - (r + s) * (r + s); apart2(g); vc_assert(CircleCircleConstraint::isActive(a, b, r, s) == (g <= 0), BB); vc_cover("done"); }
VC(planeTouch) { const Vector2s a = vc_vec2("a"); const scalar r = vc_pos("r"); const RigidBody2DStaticPlane p = plane("p"); const scalar d = p.n().dot(a - p.x()) - r; apart2(d); vc_assert(StaticPlaneCircleConstraint::isActive(a, r, p) == (d <= 0), BP); vc_cover("done"); }
VC(depths)
{
  const long n = vc_size("n", 2, 1000000); const unsigned i = unsigned(vc_int("i", 0, n - 2)), j = unsigned(vc_int("j", 1, n - 1)); vc_assume(i < j); VectorXs q = vc_vecx("q", 3 * n); const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1"); const Vector2s d(q(3 * i) - q(3 * j), q(3 * i + 1) - q(3 * j + 1)); vc_assume((d.x() != 0) | (d.y() != 0));
  const scalar l = std::sqrt(d.x() * d.x() + d.y() * d.y()) - r0 - r1; const CircleCircleConstraint c{i, j, vc_unit2("cn"), vc_vec2("cp"), r0, r1}; vc_eq(static_cast<const Constraint&>(c).penetrationDepth(q), l < 0 ? l : 0.0, PD);
  const RigidBody2DStaticPlane p = plane("p"); const StaticPlaneCircleConstraint s{i, 0, r0, p}; const scalar e = p.n().dot(Vector2s(q(3 * i), q(3 * i + 1)) - p.x()) - r0; vc_eq(static_cast<const Constraint&>(s).penetrationDepth(q), e < 0 ? e : 0.0, PD);
  const Vector2s d0 = vc_vec2("d0"), d1 = vc_vec2("d1"), x0 = vc_vec2("x0"), x1 = vc_vec2("x1"), f = d + d0 - d1; vc_assume((f.x() != 0) | (f.y() != 0)); vc_assume((x0.x() != x1.x()) | (x0.y() != x1.y()));
  const TeleportedCircleCircleConstraint t{i, j, x0, x1, r0, r1, d0, d1, r0, r1}; const scalar m = std::sqrt(f.x() * f.x() + f.y() * f.y()) - r0 - r1; vc_eq(static_cast<const Constraint&>(t).penetrationDepth(q), m < 0 ? m : 0.0, PD); vc_cover("done");
}
// circle against box: centre at local coordinates c
static Vector2s boxCentre() { return vc_vec2("x1"); }
VC(circleBoxOutside)
{
  const Vector2s x1 = boxCentre(), r1(vc_pos("rx"), vc_pos("ry")), x0 = vc_vec2("x0"); const scalar t = vc_real("theta"), r0 = vc_pos("r0"); const Vector2s c = unrot(t, x0 - x1); apart2(std::fabs(c.x()) - r1.x()); apart2(std::fabs(c.y()) - r1.y()); vc_assume((c.x() > r1.x()) | (c.x() < -r1.x()) | (c.y() > r1.y()) | (c.y() < -r1.y()));
  Vector2s e; for (int k = 0; k < 2; ++k) e(k) = c(k) > r1(k) ? c(k) - r1(k) : c(k) < -r1(k) ? c(k) + r1(k) : 0.0;   // from the nearest point of the box
  const scalar d2 = e.x() * e.x() + e.y() * e.y(); apart2(d2 - r0 * r0); Vector2s n, p; const bool a = CircleBoxTools::isActive(x0, r0, x1, t, r1, n, p); vc_assert(a == (d2 <= r0 * r0), CB);
  if (a) { const scalar d = std::sqrt(d2); const Vector2s w = rot(t, e); vc_eq2(n * d, w, CN); vc_eq(n.squaredNorm(), 1, CN); vc_eq2(x0 - p, (r0 + 0.5 * (d - r0)) * n, CP); vc_cover("touching"); } vc_cover("done");
}
VC(circleBoxInside)
{
  const Vector2s x1 = boxCentre(), r1(vc_pos("rx"), vc_pos("ry")), x0 = vc_vec2("x0"); const scalar t = vc_real("theta"), r0 = vc_pos("r0"); const Vector2s c = unrot(t, x0 - x1); vc_assume((c.x() < r1.x()) & (c.x() > -r1.x()) & (c.y() < r1.y()) & (c.y() > -r1.y())); if (vc_native()) vc_assume((std::fabs(c.x()) > 1e-6) & (std::fabs(c.y()) > 1e-6));
  Vector2s n, p; const bool a = CircleBoxTools::isActive(x0, r0, x1, t, r1, n, p); vc_assert(a, CI); const Vector2s m = unrot(t, n);
  const scalar tol = vc_native() ? 1e-9 : 0; vc_eq(m.x() * m.y(), 0, CI); vc_eq(m.x() * m.x() + m.y() * m.y(), 1, CI); vc_assert((m.x() * c.x() >= -tol) & (m.y() * c.y() >= -tol), CI);
  const scalar depth = m.x() * m.x() * r1.x() + m.y() * m.y() * r1.y() - (m.x() * c.x() + m.y() * c.y()); vc_eq2(x0 - p, (r0 - 0.5 * (depth + r0)) * n, CP); vc_cover("done");
}
namespace { struct Sat { scalar best; Vector2s n[4]; scalar g[4]; }; }
static Sat sat(const Vector2s& x0, scalar t0, const Vector2s& r0, const Vector2s& x1, scalar t1, const Vector2s& r1)
{
  Sat s; s.best = -1e300; const Vector2s e[2] = {Vector2s(1, 0), Vector2s(0, 1)};
  for (int k = 0; k < 4; ++k) { const Vector2s a = k < 2 ? rot(t0, e[k]) : rot(t1, e[k - 2]); s.n[k] = a; scalar w = 0; for (int m = 0; m < 2; ++m) w += r0(m) * std::fabs(a.dot(rot(t0, e[m]))) + r1(m) * std::fabs(a.dot(rot(t1, e[m]))); s.g[k] = std::fabs(a.dot(x1 - x0)) - w; if (s.g[k] > s.best) s.best = s.g[k]; }
  return s;
}
VC(boxBoxPoints)
{
  if (!vc_native()) { vc_cover("done"); return; }
  Vector2s x0, x1, r0, r1; for (int k = 0; k < 2; ++k) { x0(k) = vc_real_in("x0", -1, 1); x1(k) = vc_real_in("x1", -1, 1); r0(k) = vc_real_in("r0", 0.1, 1); r1(k) = vc_real_in("r1", 0.1, 1); } const bool al = vc_bool("aligned") != 0; const scalar t0 = vc_real_in("t0", -4, 4), t1 = al ? t0 + 1.5707963267948966 * double(vc_int("quarter", -2, 2)) : vc_real_in("t1", -4, 4);
  const Sat s = sat(x0, t0, r0, x1, t1, r1); vc_assume(std::fabs(s.best) > 1e-6);
  Vector2s n; std::vector<Vector2s> ps; BoxBoxTools::isActive(x0, t0, r0, x1, t1, r1, n, ps); vc_assert((s.best <= 0) == !ps.empty(), SA); vc_assert(ps.size() <= 2, SA);
  if (!ps.empty()) { bool ok = false; for (int k = 0; k < 4; ++k) ok = ok || (s.g[k] > s.best - 1e-9 && std::fabs(std::fabs(n.dot(s.n[k])) - 1) < 1e-9); vc_assert(ok, SN); vc_assert(n.dot(x0 - x1) >= -1e-9, SN);
    for (const Vector2s& p : ps) { bool in = false;
      for (int k = 0; k < 4; ++k) { if (!(s.g[k] > s.best - 1e-9 && std::fabs(std::fabs(n.dot(s.n[k])) - 1) < 1e-9)) continue; const bool f = k < 2; const Vector2s N = f ? Vector2s(-n) : n; const Vector2s &xa = f ? x0 : x1, &xb = f ? x1 : x0, &ra = f ? r0 : r1, &rb = f ? r1 : r0; const scalar ta = f ? t0 : t1, tb = f ? t1 : t0;
        const scalar h = ra(k % 2) - N.dot(p - xa); const Vector2s a = unrot(ta, p - xa), b = unrot(tb, p - h * N - xb); in = in || (h >= -1e-9 && std::fabs(a(1 - k % 2)) <= ra(1 - k % 2) + 1e-9 && (b.array().abs() <= rb.array() + 1e-9).all()); }
      vc_assert(in, SP); } }
  // swapping the boxes mirrors the normal and keeps the verdict
  Vector2s m; std::vector<Vector2s> qs; BoxBoxTools::isActive(x1, t1, r1, x0, t0, r0, m, qs); vc_assert(qs.empty() == ps.empty(), SA); vc_cover("done");
}
// the separating test alone
VC(boxBoxSeparated)
{
  const Vector2s x0 = vc_vec2("x0"), x1 = vc_vec2("x1"), r0(vc_pos("ax"), vc_pos("ay")), r1(vc_pos("bx"), vc_pos("by")); const scalar t0 = vc_real("t0"), t1 = vc_real("t1"); const Sat s = sat(x0, t0, r0, x1, t1, r1); if (vc_native()) vc_assume(std::fabs(s.best) > 1e-6);
  const int k = int(vc_choose("axis", 4)); vc_assume(s.g[k] > 0); Vector2s n; std::vector<Vector2s> ps; BoxBoxTools::isActive(x0, t0, r0, x1, t1, r1, n, ps); vc_assert(ps.empty(), SA); vc_cover("done");
}
// what the box tools answered for this pair (native: what they answer)
namespace { struct Ans { Vector2s n; std::vector<Vector2s> p; }; }
static Ans answer(long kind, const Vector2s& x0, scalar t0, const Vector2s& r0, const Vector2s& x1, scalar t1, const Vector2s& r1)
{
  Ans a;
#ifdef VC_NATIVE
  if (kind) { Vector2s p; if (CircleBoxTools::isActive(x0, r0.x(), x1, t1, r1, a.n, p)) a.p.push_back(p); } else BoxBoxTools::isActive(x0, t0, r0, x1, t1, r1, a.n, a.p);
#else
  static size_t k = 0; vc_assert(k < g_asks.size(), AS); if (k >= g_asks.size()) return a; const Ask& s = g_asks[k++]; vc_eqi(s.kind, kind, AS); vc_eq2(s.x0, x0, AS); vc_eq2(s.x1, x1, AS); vc_eq2(s.r0, r0, AS); vc_eq2(s.r1, r1, AS); if (!kind) vc_eq(s.t0, t0, AS); vc_eq(s.t1, t1, AS); a.n = s.n; a.p = s.p;
#endif
  return a;
}
static bool ccdHit(const VectorXs& q0, const VectorXs& q1, const std::vector<Vector2s>& R, long a, long b)
{
#ifdef VC_NATIVE
  return CollisionDetectionUtilities::ballBallCCDCollisionHappens(q0.segment<2>(3 * a), q1.segment<2>(3 * a), R[size_t(a)].x(), q0.segment<2>(3 * b), q1.segment<2>(3 * b), R[size_t(b)].x()).first;
#else
  vc_assert(!g_asks.empty(), AS); if (g_asks.empty()) return false; const Ask s = g_asks[0]; vc_eqi(s.kind, 2, AS); const bool f = s.x0 == q0.segment<2>(3 * a) && s.x1 == q0.segment<2>(3 * b);   // either order
  const long c = f ? a : b, d = f ? b : a; vc_eq2(s.x0, q0.segment<2>(3 * c), AS); vc_eq2(s.r1, q1.segment<2>(3 * c), AS); vc_eq(s.r0.x(), R[size_t(c)].x(), AS); vc_eq2(s.x1, q0.segment<2>(3 * d), AS); vc_eq2(s.n, q1.segment<2>(3 * d), AS); vc_eq(s.r0.y(), R[size_t(d)].x(), AS); return !s.p.empty();
#endif
}
static void clear2(const Vector2s& a, const Vector2s& b) { const Vector2s d = a - b; if (vc_native()) vc_assume(d.norm() > 1e-3); else vc_assume((d.x() != 0) | (d.y() != 0)); }
static Vector2s vec(const VectorXs& v) { return Vector2s(v(0), v(1)); }
// statics: only planes; nat: random configurations of many bodies
static void simActive(long n, long np, bool nat, int kinds = -1, int kin = -1)
{
  Rb2d s = makeBodies2d(n, 1); s.geo.clear(); VectorXs q0 = s.q, q1 = vc_vecx("q1", 3 * n), v = vc_vecx("vv", 3 * n); std::vector<long> box; std::vector<Vector2s> R; if (nat) for (long i = 0; i < n; ++i) { for (long k = 0; k < 2; ++k) { q1(3 * i + k) = vc_real_in("p", -1.5, 1.5); q0(3 * i + k) = q1(3 * i + k) + vc_real_in("dq", -0.1, 0.1); } q0(3 * i + 2) = q1(3 * i + 2) + vc_real_in("dq", -0.1, 0.1); }
  for (long i = 0; i < n; ++i) { box.push_back(kinds < 0 ? vc_choose("box", 2) : (kinds == 1 ? (i ? 1 - box[0] : vc_choose("box", 2)) : kinds / 2)); s.fixed[size_t(i)] = kin < 0 ? vc_choose("kinematic", 2) != 0 : ((kin >> i) & 1) != 0; s.gi(i) = unsigned(i); if (box.back()) { R.push_back(nat ? Vector2s(vc_real_in("rx", 0.05, 0.5), vc_real_in("ry", 0.05, 0.5)) : Vector2s(vc_pos("rx"), vc_pos("ry"))); s.geo.push_back(std::unique_ptr<RigidBody2DGeometry>{new BoxGeometry{R.back()}}); } else { const scalar r = nat ? vc_real_in("rad", 0.05, 0.5) : vc_pos("rad"); R.push_back(Vector2s(r, r)); s.geo.push_back(std::unique_ptr<RigidBody2DGeometry>{new CircleGeometry{r}}); } }
  for (long p = 0; p < np; ++p) s.planes.push_back(plane("p"));
  RigidBody2DSim sim; sim.state() = s.state();
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) clear2(q0.segment<2>(3 * i), q0.segment<2>(3 * j));
#ifndef VC_NATIVE
  for (const VectorXs* q : {&q0, &q1}) for (long i = 0; i < n; ++i) { const VectorXs& w = box[size_t(i)] ? q1 : *q; const Vector2s& r = R[size_t(i)]; Vector2s e = r; if (box[size_t(i)]) { const scalar c = std::fabs(std::cos(w(3 * i + 2))), d = std::fabs(std::sin(w(3 * i + 2))); e = Vector2s(c * r.x() + d * r.y(), d * r.x() + c * r.y()); } g_lo.push_back(w.segment<2>(3 * i) - e); g_hi.push_back(w.segment<2>(3 * i) + e); }
#endif
  bool unsupported = false; for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) { const bool k0 = s.fixed[size_t(i)], k1 = s.fixed[size_t(j)]; const bool b0 = box[size_t(i)] != 0, b1 = box[size_t(j)] != 0; unsupported = unsupported || (k0 != k1 && ((b0 && b1) || (b0 && !b1 && k1) || (!b0 && b1 && k0))); }
  vc_allow_exit(unsupported);
  std::vector<std::unique_ptr<Constraint>> as; static_cast<ConstrainedSystem&>(sim).computeActiveSet(q0, q1, v, as); long total = 0;
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) {
    const bool k0 = s.fixed[size_t(i)], k1 = s.fixed[size_t(j)]; const bool b0 = box[size_t(i)] != 0, b1 = box[size_t(j)] != 0; std::vector<const Constraint*> cs; for (const auto& c : as) { std::pair<int, int> b; c->getBodyIndices(b); if ((b.first == i && b.second == j) || (b.first == j && b.second == i)) cs.push_back(c.get()); } total += long(cs.size());
    if (k0 && k1) { vc_eqi(long(cs.size()), 0, AS); continue; }
    const Vector2s xi = q0.segment<2>(3 * i), xj = q0.segment<2>(3 * j); const scalar ri = R[size_t(i)].x(), rj = R[size_t(j)].x(); std::vector<Vector2s> ps; Vector2s n_ij; scalar l = 1;   // l n_ij: from j to i
    if (!b0 && !b1) { const bool hit = ccdHit(q0, q1, R, k0 ? j : i, k0 ? i : j); n_ij = xi - xj; l = std::sqrt(n_ij.x() * n_ij.x() + n_ij.y() * n_ij.y()); if (hit) ps.push_back(xi + (ri / (ri + rj)) * (xj - xi)); }
    else { if (b0 == b1 && (k0 || k1)) { if (vc_native()) vc_assume(cs.empty()); continue; }   // boxes not near each other (otherwise unsupported)
      const bool sw = b0 && !b1; const long a = sw ? j : i, b = sw ? i : j; if (b0 != b1 && (sw ? k1 : k0)) continue; const Ans w = answer(b0 != b1, q1.segment<2>(3 * a), q1(3 * a + 2), R[size_t(a)], q1.segment<2>(3 * b), q1(3 * b + 2), R[size_t(b)]); n_ij = sw ? Vector2s(-w.n) : w.n; ps = w.p; }
    vc_eqi(long(cs.size()), long(ps.size()), AS);
    for (size_t c = 0; c < cs.size() && c < ps.size(); ++c) { std::pair<int, int> b; cs[c]->getBodyIndices(b); const scalar sg = b.first == i ? 1 : -1; VectorXs m, pt; cs[c]->getWorldSpaceContactNormal(q0, m); vc_eq2(l * vec(m), sg * n_ij, AS);
      cs[c]->getWorldSpaceContactPoint(q0, pt);
      if (!k0 && !k1) vc_eq2(vec(pt), ps[c], AS);
      else { const long S = k0 ? j : i, K = k0 ? i : j; vc_eqi(b.first, S, AS); vc_assert(typeid(*cs[c]) == typeid(KinematicObjectCircleConstraint), AS); const Vector2s arm = q0.segment<2>(3 * S) - R[size_t(S)].x() * vec(m) - q0.segment<2>(3 * K); VectorXs g = VectorXs::Zero(1); cs[c]->evalKinematicNormalRelVel(q0, 0, g); vc_eq(g(0), -(m(0) * (v(3 * K) - v(3 * K + 2) * arm.y()) + m(1) * (v(3 * K + 1) + v(3 * K + 2) * arm.x())), AS); } }
  }
  for (long p = 0; p < np; ++p) for (long i = 0; i < n; ++i) {
    const RigidBody2DStaticPlane& P = s.planes[size_t(p)]; std::vector<const Constraint*> cs; for (const auto& c : as) { std::pair<int, int> b; c->getBodyIndices(b); if (b.first == i && b.second == -1 && c->getStaticObjectIndex() == unsigned(p)) cs.push_back(c.get()); } total += long(cs.size());
    if (s.fixed[size_t(i)]) { vc_eqi(long(cs.size()), 0, AS); continue; }
    std::vector<Vector2s> ps; const Vector2s x = q1.segment<2>(3 * i), y = q0.segment<2>(3 * i), r = R[size_t(i)];
    if (box[size_t(i)]) { for (int a = -1; a <= 1; a += 2) for (int b = -1; b <= 1; b += 2) { const Vector2s arm(a * r.x(), b * r.y()); const scalar d = P.n().dot(x + rot(q1(3 * i + 2), arm) - P.x()); apart2(d); if (d <= 0) ps.push_back(y + rot(q0(3 * i + 2), arm)); } }
    else { const scalar d = P.n().dot(x - P.x()) - r.x(); apart2(d); if (d <= 0) ps.push_back(y - r.x() * P.n()); }
    vc_eqi(long(cs.size()), long(ps.size()), AS); for (size_t c = 0; c < cs.size() && c < ps.size(); ++c) { VectorXs m, pt; cs[c]->getWorldSpaceContactNormal(q0, m); vc_eq2(vec(m), P.n(), AS); cs[c]->getWorldSpaceContactPoint(q0, pt); vc_eq2(vec(pt), ps[c], AS); }
  }
  vc_eqi(long(as.size()), total, AS); vc_cover("done");
}
VC(activeCircles) { simActive(2, 0, false, 0, 0); }
VC(activeKinCircle) { simActive(2, 0, false, 0, 1 + int(vc_choose("which", 3))); }
VC(activeCircleBox) { simActive(2, 0, false, 1); }
VC(activeBoxes) { simActive(2, 0, false, 2); }
VC(activePlanes) { const long k = vc_choose("k", 2); simActive(vc_size("n", 0, 1), 1 + k, false); }
// BOUND activePlanes 1 1
VC(activeMany) { if (!vc_native()) { vc_cover("done"); return; } simActive(vc_int("n", 0, 10), vc_int("np", 0, 2), true); }
static bool touches(const PlanarPortal& P, const Vector2s& x, scalar r, bool second) { const RigidBody2DStaticPlane& p = second ? P.planeB() : P.planeA(); const scalar d = p.n().dot(x - p.x()) - r * (std::fabs(p.n().x()) + std::fabs(p.n().y())); apart2(d); return d <= 0; }
static void tele(const PlanarPortal& P, const Vector2s& x, bool second, Vector2s& y) { P.teleportPoint(x, second, y); }
static bool isTele(const Constraint& c) { return typeid(c) == typeid(TeleportedCircleCircleConstraint) || typeid(c) == typeid(KinematicKickCircleCircleConstraint); }
#include "c05_portal.h"
VC(activePortalsMany)
{
  if (!vc_native()) { vc_cover("done"); return; } const long n = vc_int("n", 0, 8), np = vc_int("np", 1, 2); const bool le = vc_bool("le") != 0;
  Rb2d s = makeBodies2d(n, 1); s.geo.clear(); std::vector<scalar> pv; VectorXs q0 = s.q, q1 = s.q, r(n); const scalar W = vc_real_in("W", 1, 3); for (long i = 0; i < n; ++i) { r(i) = vc_real_in("rad", 0.05, 0.3); s.gi(i) = unsigned(i); s.fixed[size_t(i)] = false; s.geo.push_back(std::unique_ptr<RigidBody2DGeometry>{new CircleGeometry{r(i)}}); }
  for (long p = 0; p < np; ++p) { const Vector2s e(p == 0, p == 1), o = vc_vec2("o"); const bool l = le && p == 0; const scalar v = l ? vc_real_in("pv", -3, 3) : 0.0; pv.push_back(v); s.portals.emplace_back(RigidBody2DStaticPlane{Vector2s(-0.5 * W * e + 0.1 * o.x() * Vector2s(e.y(), -e.x())), e}, RigidBody2DStaticPlane{Vector2s(0.5 * W * e + 0.1 * o.y() * Vector2s(e.y(), -e.x())), Vector2s(-e)}, v, l ? 0.5 * W : 0.0); if (l) s.portals.back().updateMovingPortals(vc_real_in("time", 0, 4)); }
  for (long i = 0; i < n; ++i) for (long k = 0; k < 2; ++k) { q1(3 * i + k) = vc_real_in("p", -0.55, 0.55) * W; q0(3 * i + k) = q1(3 * i + k) + vc_real_in("dq", -0.01, 0.01); }
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) clear2(q0.segment<2>(3 * i), q0.segment<2>(3 * j));
  RigidBody2DSim sim; sim.state() = s.state(); portalActive<3>(sim, sim.state().planarPortals(), pv, r, n, q0, q1, le);
}
