// Narrow phase of RigidBody3D systems.  In symbolic runs of the active set the spatial grid is replaced by its contract (C06) and the box test by any answer;
// native runs use the real ones.
// NATIVEONLY staples activeMany activePortalsMany boxBoxPoints boxBoxAligned meshMesh meshDetect
// OPT fpto_safety false
// SECS (sphereBox|activeBoxPlane|activeSphereStatics|segments) 250
#include "st_rb3d.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
#include "rigidbody3d/PythonScripting.h"
#include "rigidbody3d/SpatialGridDetector.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
#include "rigidbody3d/Constraints/BoxBoxUtilities.h"
#include "rigidbody3d/Constraints/CollisionUtilities.h"
#include "rigidbody3d/Constraints/MeshMeshUtilities.h"
#include "rigidbody3d/Constraints/StapleStapleUtilities.h"
#include "rigidbody3d/Constraints/SphereSphereConstraint.h"
#include "rigidbody3d/Constraints/BodyBodyConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectBodyConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneBoxConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticCylinderSphereConstraint.h"
#include "rigidbody3d/Constraints/TeleportedSphereSphereConstraint.h"
#include "rigidbody3d/RigidBody3DSim.h"
#define BX "every body lies in its bounding box at the end of the step"
#ifndef VC_NATIVE
static std::vector<Vector3s> g_lo, g_hi;
namespace SpatialGridDetector { static void vcGrid(const std::vector<AABB>& b, std::set<std::pair<unsigned, unsigned>>& out)
{
  vc_assert(b.size() >= g_lo.size(), BX); for (size_t j = 0; j < g_lo.size(); ++j) for (int k = 0; k < 3; ++k) { vc_le(b[j].min()(k), g_lo[j](k), BX); vc_le(g_hi[j](k), b[j].max()(k), BX); }
  for (unsigned i = 0; i < b.size(); ++i) for (unsigned j = i + 1; j < b.size(); ++j) out.insert(std::make_pair(i, j));
} }
namespace { struct Ask { Vector3s x0, r0, x1, r1, n; Matrix33sr R0, R1; std::vector<Vector3s> p; }; std::vector<Ask> g_asks; }
struct VcBoxBox { static void isActive(const Vector3s& x0, const Matrix33sr& R0, const Vector3s& r0, const Vector3s& x1, const Matrix33sr& R1, const Vector3s& r1, Vector3s& n, std::vector<Vector3s>& points)
{ Ask a; a.x0 = x0; a.R0 = R0; a.r0 = r0; a.x1 = x1; a.R1 = R1; a.r1 = r1; a.n = vc_unit3("boxn"); const long k = vc_choose("npoints", 3); for (long i = 0; i < k; ++i) a.p.push_back(vc_vec3("boxp")); n = a.n; for (const Vector3s& p : a.p) points.push_back(p); g_asks.push_back(a); } };
#define getPotentialOverlaps vcGrid
#define BoxBoxUtilities VcBoxBox
#endif
#include "rigidbody3d/RigidBody3DSim.cpp"
#undef getPotentialOverlaps
#undef BoxBoxUtilities
#define BB "two spheres touch exactly when their centres are no further apart than the sum of the radii"
#define BP "a sphere touches a plane exactly when its centre is no further than its radius in front of it"
#define BC "a sphere touches a cylinder (from inside) exactly when its centre is no closer than its radius to the wall"
#define PB "a box touches a plane at exactly its corners that are not in front of it"
#define CB "a sphere touches a box exactly when the point of the box nearest to its centre is within the radius, and that point is the contact point"
#define CN "the contact normal of a sphere and a box points from the centre of the sphere to the nearest point of the box"
#define SS "the closest points of two segments are points of the segments with the least distance between them"
#define ST "two staples touch exactly when some segments of them are within the sum of the radii"
#define SA "two boxes touch exactly when no face direction and no product of edges separates them"
#define SN "the contact normal of two boxes is a direction of least overlap (faces preferred by 5 percent), pointing to the first box"
#define SP "every contact point of two boxes lies in both boxes"
#define PD "the penetration depth is the overlap as a negative number, zero for a separated pair"
#define MD "a point collides with a mesh exactly when the interpolated distance field is not positive, with the normalised gradient as the normal"
#define MM "two meshes have one contact for every sample of either that collides with the other, with the normal pointing to the first mesh"
#define MH "a mesh touches a plane or a cylinder at exactly its hull vertices that are not on the free side"
#define AS "the active set has one contact for each touching pair, built from the configuration at the start of the step, and no other"
static void apart2(scalar d) { if (vc_native()) vc_assume(std::fabs(d) > 1e-9); }
static scalar sq(const Vector3s& a) { return a.x() * a.x() + a.y() * a.y() + a.z() * a.z(); }
VC(sphereTouch) { const Vector3s a = vc_vec3("a"), b = vc_vec3("b"); const scalar r = vc_pos("r"), s = vc_pos("s"), g = sq(a - b) - (r + s) * (r + s); apart2(g); vc_assert(SphereSphereConstraint::isActive(a, b, r, s) == (g <= 0), BB); vc_cover("done"); }
VC(planeTouch) { const Vector3s a = vc_vec3("a"), x = vc_vec3("x"), n = vc_unit3("n"); const scalar r = vc_pos("r"), d = n.dot(a - x) - r; apart2(d); vc_assert(StaticPlaneSphereConstraint::isActive(x, n, a, r) == (d <= 0), BP); vc_cover("done"); }
VC(cylinderTouch) { const Vector3s a = vc_vec3("a"), x = vc_vec3("x"), n = vc_unit3("n"); const scalar r = vc_pos("r"), R = r + vc_pos("dR"), h = n.dot(a - x), g = sq(a - x) - h * h - (R - r) * (R - r); apart2(g); const bool t = StaticCylinderSphereConstraint::isActive(x, n, R, a, r); vc_assume(n.squaredNorm() == 1 || vc_native()); vc_assert(t == (g >= 0), BC); vc_cover("done"); }
VC(planeBox)
{
  const Vector3s x = vc_vec3("x"), n = vc_unit3("n"), c = vc_vec3("c"), w(vc_pos("wx"), vc_pos("wy"), vc_pos("wz")); Matrix33sr R; if (vc_native()) R = vc_rot3("R"); else vc_fill("R", R.data(), 9);
  bool in[8]; long k = 0; for (int i = 0; i < 8; ++i) { const Vector3s s(i & 1 ? w.x() : -w.x(), i & 2 ? w.y() : -w.y(), i & 4 ? w.z() : -w.z()); const scalar d = n.dot(R * s + c - x); apart2(d); in[i] = d <= 0; }
  std::vector<short> a; const bool h = StaticPlaneBoxConstraint::isActive(x, n, c, R, w, a); for (int i = 0; i < 8; ++i) if (in[i]) { vc_assert(size_t(k) < a.size() && a[size_t(k)] == i, PB); ++k; } vc_eqi(long(a.size()), k, PB); vc_assert(h == (k > 0), PB); vc_cover("done");
}
VC(depths)
{
  const long n = vc_size("n", 2, 1000000); const unsigned i = unsigned(vc_int("i", 0, n - 2)), j = unsigned(vc_int("j", 1, n - 1)); vc_assume(i < j); VectorXs q = vc_vecx("q", 12 * n); const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1"); const Vector3s d = q.segment<3>(3 * i) - q.segment<3>(3 * j); vc_assume((d.x() != 0) | (d.y() != 0) | (d.z() != 0));
  const scalar l = std::sqrt(sq(d)) - r0 - r1; const SphereSphereConstraint c{i, j, vc_unit3("cn"), vc_vec3("cp"), r0, r1}; vc_eq(static_cast<const Constraint&>(c).penetrationDepth(q), l < 0 ? l : 0.0, PD);
  const KinematicSphereSphereConstraint k{i, r0, vc_unit3("cn"), j, vc_vec3("X"), Vector3s::Zero(), Vector3s::Zero(), r1}; vc_eq(static_cast<const Constraint&>(k).penetrationDepth(q), l < 0 ? l : 0.0, PD);
  const StaticPlane p = plane("p"); const StaticPlaneSphereConstraint s{i, r0, p, 0}; const scalar e = p.n().dot(q.segment<3>(3 * i) - p.x()) - r0; vc_eq(static_cast<const Constraint&>(s).penetrationDepth(q), e < 0 ? e : 0.0, PD); vc_cover("done");
}
VC(sphereBox)
{
  const Vector3s x = vc_vec3("x"), w(vc_pos("wx"), vc_pos("wy"), vc_pos("wz")), c = vc_native() ? Vector3s(2 * vc_vec3("c")) : vc_vec3("c"); const scalar r = vc_pos("r"); const Matrix33sr Q = vc_rot3("R"); const Matrix33sc R = Q;
  Vector3s e; for (int k = 0; k < 3; ++k) e(k) = c(k) > w(k) ? c(k) - w(k) : c(k) < -w(k) ? c(k) + w(k) : 0.0; const scalar d2 = sq(e); apart2(d2 - r * r); apart2(d2 - 1e-9); const Vector3s xs = x + R * c;
  vc_allow_exit(d2 <= 1e-9); std::vector<Vector3s> p, n; CollisionUtilities::computeBoxSphereActiveSet(x, R, w, xs, r, p, n); vc_assert(p.size() == n.size(), CB); vc_eqi(long(p.size()), d2 <= r * r ? 1 : 0, CB);
  if (p.size() == 1) { vc_eq3(p[0], x + R * (c - e), CB); vc_eq3(n[0] * std::sqrt(d2), -(R * e), CN); vc_cover("touching"); } vc_cover("done");
}
VC(segments)
{
  Vector3s p1 = vc_vec3("p1"), q1 = vc_vec3("q1"), p2 = vc_vec3("p2"), q2 = vc_vec3("q2");
  if (vc_native()) { const long k = vc_choose("special", 6); if (k == 1) q1 = p1; if (k == 2) q2 = p2; if (k == 3) { q1 = p1; q2 = p2; } if (k == 4) q2 = p2 + 2 * (q1 - p1); if (k == 5) q2 = p2 - 0.5 * (q1 - p1); }
  scalar s = -1, t = -1; Vector3s a, b; const scalar d = CollisionUtilities::closestPointSegmentSegment(p1, q1, p2, q2, s, t, a, b); const scalar tol = vc_native() ? 1e-7 : 0;
  const Vector3s u = q1 - p1, v = q2 - p2; const scalar uu = sq(u), vv = sq(v); if (vc_native()) vc_assume((uu < 1e-12 || uu > 1e-6) && (vv < 1e-12 || vv > 1e-6));
  vc_assert((s >= 0) & (s <= 1) & (t >= 0) & (t <= 1), SS);
  if ((uu > 1e-8 && vv > 1e-8) || vc_native()) vc_eq3(a, p1 + s * u, SS); if ((uu > 1e-8 && vv > 1e-8) || vc_native()) vc_eq3(b, p2 + t * v, SS); vc_eq(d, sq(a - b), SS);
  if (vc_native()) { // optimality of a convex problem
    const scalar gs = u.dot(a - b), gt = -v.dot(a - b); vc_assert(uu < 1e-12 || (s <= 0 ? gs >= -tol : s >= 1 ? gs <= tol : std::fabs(gs) <= tol), SS); vc_assert(vv < 1e-12 || (t <= 0 ? gt >= -tol : t >= 1 ? gt <= tol : std::fabs(gt) <= tol), SS); }
  vc_cover("done");
}
static scalar segDist2(const Vector3s& a, const Vector3s& b, const Vector3s& c, const Vector3s& d) { scalar s, t; Vector3s x, y; return CollisionUtilities::closestPointSegmentSegment(a, b, c, d, s, t, x, y); }
VC(staples)
{
  const RigidBodyStaple A(vc_real_in("w", 0.2, 2), vc_real_in("l", 0.2, 2), vc_real_in("D", 0.02, 0.15)), B(vc_real_in("w", 0.2, 2), vc_real_in("l", 0.2, 2), vc_real_in("D", 0.02, 0.15)); const Matrix33sr R0 = vc_rot3("R0"), R1 = vc_rot3("R1"); const Vector3s x0 = vc_vec3("x0"), x1 = x0 + vc_vec3("x1"); scalar m = 1e300;
  for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { const scalar d = segDist2(x0 + R0 * A.points()[i], x0 + R0 * A.points()[i + 1], x1 + R1 * B.points()[j], x1 + R1 * B.points()[j + 1]); if (d < m) m = d; }
  const scalar g = m - (A.r() + B.r()) * (A.r() + B.r()); apart2(g); vc_assert(StapleStapleUtilities::isActive(x0, R0, A, x1, R1, B) == (g <= 0), ST); vc_cover("done");
}
VC(staplePlane)
{
  const scalar D = vc_pos("D"), w = D + vc_pos("w"), l = D + vc_pos("l"); const RigidBodyStaple A(w, l, D); const Vector3s c = vc_vec3("c"), x = vc_vec3("x"), n = vc_unit3("n"); Matrix33sr R; if (vc_native()) R = vc_rot3("R"); else vc_fill("R", R.data(), 9); std::vector<int> p; bool in[4]; long k = 0;
  for (int i = 0; i < 4; ++i) { const scalar d = n.dot(R * A.points()[size_t(i)] + c - x) - A.r(); apart2(d); in[i] = d <= 0; } StapleStapleUtilities::computeStapleHalfPlaneActiveSet(c, R, A, x, n, p); for (int i = 0; i < 4; ++i) if (in[i]) { vc_assert(size_t(k) < p.size() && p[size_t(k)] == i, PB); ++k; } vc_eqi(long(p.size()), k, PB); vc_cover("done");
}
// meshes
static void hull(RigidBodyTriangleMesh& m, long n) { m.m_convex_hull_samples.resize(3, n); vc_fill("hull", m.m_convex_hull_samples.data(), 3 * n); }
// BOUND meshStatics 2 4
VC(meshStatics)
{
  RigidBodyTriangleMesh m; hull(m, vc_size("n", 0, 20)); const Vector3s c = vc_vec3("c"), x = vc_vec3("x"), n = vc_unit3("n"); const scalar r = vc_pos("r"); Matrix33sr R; if (vc_native()) R = vc_rot3("R"); else vc_fill("R", R.data(), 9); std::vector<unsigned> p, z; size_t k = 0, l = 0;
  MeshMeshUtilities::computeMeshHalfPlaneActiveSet(c, R, m, x, n, p); MeshMeshUtilities::computeMeshCylinderActiveSet(c, R, m, x, n, r, z);
  for (long i = 0; i < m.m_convex_hull_samples.cols(); ++i) { const Vector3s v = R * Vector3s(m.m_convex_hull_samples.col(i)) + c - x; const scalar d = n.dot(v), g = sq(v) - d * d - r * r; apart2(d); apart2(g); if (d <= 0) { vc_assert(k < p.size() && p[k] == unsigned(i), MH); ++k; } vc_assume(n.squaredNorm() == 1 || vc_native()); if (g >= 0) { vc_assert(l < z.size() && z[l] == unsigned(i), MH); ++l; } }
  vc_assert(k == p.size() && l == z.size(), MH); vc_cover("done");
}
static void field(RigidBodyTriangleMesh& m, bool ball)
{
  for (int k = 0; k < 3; ++k) { m.m_grid_dimensions(k) = unsigned(vc_int("dims", 2, 6)); m.m_cell_delta(k) = vc_real_in("delta", 0.1, 1); m.m_grid_origin(k) = ball ? -0.5 * m.m_cell_delta(k) * (m.m_grid_dimensions(k) - 1) : vc_real_in("origin", -2, 0); }
  m.m_grid_end = m.m_grid_origin + ((m.m_grid_dimensions.array() - 1).cast<scalar>() * m.m_cell_delta.array()).matrix(); const long N = long(m.m_grid_dimensions.prod()); m.m_signed_distance.resize(N); for (long i = 0; i < N; ++i) m.m_signed_distance(i) = vc_real_in("sdf", -1, 1);
}
static scalar at(const RigidBodyTriangleMesh& m, long i, long j, long k) { return m.m_signed_distance(i + long(m.m_grid_dimensions(0)) * (j + long(m.m_grid_dimensions(1)) * k)); }
// the interpolated field and its gradient by sums over the corners of the cell
static scalar trilinear(const RigidBodyTriangleMesh& m, const Vector3s& x, Vector3s& g, bool& out)
{
  long c[3]; scalar f[3]; out = false; for (int k = 0; k < 3; ++k) { const scalar y = (x(k) - m.m_grid_origin(k)) / m.m_cell_delta(k); out = out || x(k) < m.m_grid_origin(k) || x(k) > m.m_grid_end(k); c[k] = long(std::floor(y)); if (c[k] > long(m.m_grid_dimensions(k)) - 2) c[k] = long(m.m_grid_dimensions(k)) - 2; f[k] = y - scalar(c[k]); }
  g.setZero(); if (out) return 1; scalar v = 0;
  for (int b = 0; b < 8; ++b) { scalar w[3], s[3]; for (int k = 0; k < 3; ++k) { const bool u = (b >> k) & 1; w[k] = u ? f[k] : 1 - f[k]; s[k] = u ? 1 : -1; } const scalar a = at(m, c[0] + (b & 1), c[1] + ((b >> 1) & 1), c[2] + ((b >> 2) & 1)); v += w[0] * w[1] * w[2] * a; g += a * Vector3s(s[0] * w[1] * w[2] / m.m_cell_delta(0), w[0] * s[1] * w[2] / m.m_cell_delta(1), w[0] * w[1] * s[2] / m.m_cell_delta(2)); }
  return v;
}
VC(meshDetect)
{
  if (!vc_native()) { vc_cover("done"); return; }
  RigidBodyTriangleMesh m; field(m, false); Vector3s x; for (int k = 0; k < 3; ++k) { const long c = vc_choose("where", 8); const scalar a = m.m_grid_origin(k), b = m.m_grid_end(k); x(k) = c == 0 ? a : c == 1 ? b : c == 2 ? a + m.m_cell_delta(k) * scalar(vc_int("node", 0, long(m.m_grid_dimensions(k)) - 1)) : c == 3 ? std::nextafter(b, a) : vc_real_in("x", a - 0.1 * (b - a), b + 0.1 * (b - a)); }
  Vector3s g, n; bool out; const scalar v = trilinear(m, x, g, out); if (!out) { apart2(v); vc_assume(g.norm() > 1e-6); for (int k = 0; k < 3; ++k) { const scalar y = (x(k) - m.m_grid_origin(k)) / m.m_cell_delta(k); vc_assume(std::fabs(y - std::round(y)) > 1e-9 || std::fabs(y - std::round(y)) == 0 || x(k) >= std::nextafter(m.m_grid_end(k), 0)); } }
  const bool h = m.detectCollision(x, n); vc_assert(h == (!out && v <= 0), MD); if (h) vc_eq3(n * g.norm(), g, MD); vc_cover("done");
}
VC(meshMesh)
{
  if (!vc_native()) { vc_cover("done"); return; }
  RigidBodyTriangleMesh m[2]; Vector3s c[2]; Matrix33sr R[2]; for (int b = 0; b < 2; ++b) { field(m[b], true); const long ns = vc_int("ns", 0, 6); m[b].m_samples.resize(3, ns); for (long i = 0; i < 3 * ns; ++i) m[b].m_samples.data()[i] = vc_real_in("s", -1, 1); c[b] = 0.5 * vc_vec3("c"); R[b] = vc_rot3("R"); }
  std::vector<Vector3s> p, n; MeshMeshUtilities::computeActiveSet(c[0], R[0], m[0], c[1], R[1], m[1], p, n); size_t k = 0; vc_assert(p.size() == n.size(), MM);
  for (int b = 0; b < 2; ++b) for (long i = 0; i < m[b].m_samples.cols(); ++i) { const Vector3s w = c[b] + R[b] * Vector3s(m[b].m_samples.col(i)), x = R[1 - b].transpose() * (w - c[1 - b]); Vector3s g; bool out; const scalar v = trilinear(m[1 - b], x, g, out); apart2(v); vc_assume(out || g.norm() > 1e-6); if (out || v > 0) continue; vc_assert(k < p.size(), MM); if (k >= p.size()) return; vc_eq3(p[k], w, MM); vc_eq3(n[k], (b ? -1.0 : 1.0) * (R[1 - b] * g.normalized()), MM); ++k; }
  vc_assert(k == p.size(), MM); vc_cover("done");
}
// boxes
namespace { struct Sat { scalar best = -1e300, face = -1e300; std::vector<Vector3s> n; std::vector<scalar> g; }; }
static Sat sat(const Vector3s& x0, const Matrix33sr& R0, const Vector3s& r0, const Vector3s& x1, const Matrix33sr& R1, const Vector3s& r1)
{
  Sat s; for (int k = 0; k < 15; ++k) { Vector3s a = k < 3 ? Vector3s(R0.col(k)) : k < 6 ? Vector3s(R1.col(k - 3)) : Vector3s(R0.col((k - 6) / 3).cross(R1.col((k - 6) % 3))); if (a.norm() < 1e-6) continue; a.normalize(); const scalar g = std::fabs(a.dot(x1 - x0)) - (R0.transpose() * a).cwiseAbs().dot(r0) - (R1.transpose() * a).cwiseAbs().dot(r1); s.n.push_back(a); s.g.push_back(g); if (g > s.best) s.best = g; if (k < 6 && g > s.face) s.face = g; }
  return s;
}
static void boxBox(const Vector3s& x0, const Matrix33sr& R0, const Vector3s& r0, const Vector3s& x1, const Matrix33sr& R1, const Vector3s& r1)
{
  const Sat s = sat(x0, R0, r0, x1, R1, r1); vc_assume(std::fabs(s.best) > 1e-6); Vector3s n; std::vector<Vector3s> p; BoxBoxUtilities::isActive(x0, R0, r0, x1, R1, r1, n, p); vc_assert((s.best <= 0) == !p.empty(), SA);
  if (p.empty()) return;
  bool ok = false; for (size_t k = 0; k < s.n.size(); ++k) ok = ok || (s.g[k] > 1.2 * s.best - 1e-9 && std::fabs(std::fabs(n.dot(s.n[k])) - 1) < 1e-7); vc_assert(ok, SN); vc_assert(n.dot(x0 - x1) >= -1e-9, SN);
  // shallow overlaps: the points are in both boxes
  if (-s.best < 0.05 * (r0.minCoeff() < r1.minCoeff() ? r0.minCoeff() : r1.minCoeff())) for (const Vector3s& c : p) { const scalar tol = 1e-7 + 0.6 * -1.2 * s.best; vc_assert(((R0.transpose() * (c - x0)).array().abs() <= r0.array() + tol).all() && ((R1.transpose() * (c - x1)).array().abs() <= r1.array() + tol).all(), SP); }
}
static Vector3s halfWidths() { Vector3s r; for (int k = 0; k < 3; ++k) r(k) = vc_real_in("hw", 0.1, 1); return r; }
VC(boxBoxPoints) { if (!vc_native()) { vc_cover("done"); return; } Vector3s d; for (int k = 0; k < 3; ++k) d(k) = vc_real_in("d", -1, 1); const Vector3s x0 = vc_vec3("x0"); const Matrix33sr R0 = vc_rot3("R0"), R1 = vc_rot3("R1"); boxBox(x0, R0, halfWidths(), x0 + 1.3 * d, R1, halfWidths()); vc_cover("done"); }
// boxes aligned up to rounding, as in a stack
VC(boxBoxAligned)
{
  if (!vc_native()) { vc_cover("done"); return; } const Matrix33sr R0 = vc_rot3("R0"); const long t = vc_choose("turn", 3); Matrix33sr P = Matrix33sr::Identity(); if (t == 1) P << 0, -1, 0, 1, 0, 0, 0, 0, 1; if (t == 2) P << 1, 0, 0, 0, 0, -1, 0, 1, 0; const Matrix33sr B = R0 * P; Matrix33sr R1; for (int i = 0; i < 9; ++i) R1.data()[i] = B.data()[i] + 1e-16 * vc_real_in("noise", -2, 2);
  const Vector3s x0 = vc_vec3("x0"), r0 = halfWidths(), r1 = halfWidths(), e = (P.array().abs().matrix() * r1); const int k = int(vc_choose("axis", 3)); Vector3s d; for (int m = 0; m < 3; ++m) d(m) = vc_real_in("d", -0.5, 0.5) * (r0(m) + e(m)); d(k) = (vc_bool("side") ? 1.0 : -1.0) * (r0(k) + e(k)) * (1 - 1e-3 * vc_real_in("gap", -1, 1)); boxBox(x0, R0, r0, x0 + R0 * d, R1, r1); vc_cover("done");
}
// active sets
static void clear3(const Vector3s& a, const Vector3s& b) { const Vector3s d = a - b; if (vc_native()) vc_assume(d.norm() > 1e-3); else vc_assume((d.x() != 0) | (d.y() != 0) | (d.z() != 0)); }
static Matrix33sr rotOf(const VectorXs& q, long n, long i) { Matrix33sr R; for (int k = 0; k < 9; ++k) R(k / 3, k % 3) = q(3 * n + 9 * i + k); return R; }
static Vector3s vec(const VectorXs& v) { return Vector3s(v(0), v(1), v(2)); }
static void setRot(VectorXs& q, long n, long i, const Matrix33sr& R) { for (int k = 0; k < 9; ++k) q(3 * n + 9 * i + k) = R(k / 3, k % 3); }
// kinds: 0 spheres, 2 boxes, -1 all of one kind; statics (planes, cylinders); nat: random configurations of many bodies
static void simActive(long n, long np, long nc, bool nat, int kinds, int kin)
{
  Rb3d s; for (long i = 0; i < n; ++i) addBody3d(s, 1); const bool box = kinds < 0 ? vc_choose("box", 2) != 0 : kinds == 2; std::vector<Vector3s> W; VectorXs q0 = vc_vecx("q0", 12 * n), q1 = vc_vecx("q1", 12 * n); const VectorXs v = vc_vecx("v", 6 * n);
  for (long i = 0; i < n; ++i) { if (nat) for (long k = 0; k < 3; ++k) { q1(3 * i + k) = vc_real_in("p", -1, 1); q0(3 * i + k) = q1(3 * i + k) + vc_real_in("dq", -0.1, 0.1); } setRot(q0, n, i, vc_rot3("R0")); setRot(q1, n, i, vc_rot3("R1")); s.gi[size_t(i)] = unsigned(i); s.fixed[size_t(i)] = kin < 0 ? vc_choose("kinematic", 4) == 0 : ((kin >> i) & 1) != 0; if (s.fixed[size_t(i)]) { q0.segment<3>(3 * i) = q1.segment<3>(3 * i); setRot(q0, n, i, rotOf(q1, n, i)); }
    if (box) { W.push_back(nat ? Vector3s(vc_real_in("rx", 0.05, 0.6), vc_real_in("ry", 0.05, 0.6), vc_real_in("rz", 0.05, 0.6)) : Vector3s(vc_pos("rx"), vc_pos("ry"), vc_pos("rz"))); s.geo.push_back(std::unique_ptr<RigidBodyGeometry>{new RigidBodyBox{W.back()}}); } else { const scalar r = nat ? vc_real_in("rad", 0.05, 0.6) : vc_pos("rad"); W.push_back(Vector3s(r, r, r)); s.geo.push_back(std::unique_ptr<RigidBodyGeometry>{new RigidBodySphere{r}}); } }
  RigidBody3DSim sim; RigidBody3DState& st = sim.m_sim_state; s.set(st); std::vector<StaticPlane> P; std::vector<StaticCylinder> C; for (long p = 0; p < np; ++p) { P.push_back(plane("p")); st.addStaticPlane(P.back()); } for (long p = 0; p < nc; ++p) { C.emplace_back(vc_vec3("cx"), vc_unit3("ca"), vc_pos("cr") + (n ? 3 * W[0].sum() : 0.0)); st.addStaticCylinder(C.back()); }
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) clear3(q0.segment<3>(3 * i), q0.segment<3>(3 * j));
#ifndef VC_NATIVE
  for (long i = 0; i < n; ++i) { Vector3s e = W[size_t(i)]; if (box) { const Matrix33sr R = rotOf(q1, n, i); for (int k = 0; k < 3; ++k) e(k) = std::fabs(R(k, 0)) * W[size_t(i)](0) + std::fabs(R(k, 1)) * W[size_t(i)](1) + std::fabs(R(k, 2)) * W[size_t(i)](2); } g_lo.push_back(q1.segment<3>(3 * i) - e); g_hi.push_back(q1.segment<3>(3 * i) + e); }
  size_t asked = 0;
#endif
  vc_allow_exit(box && nc > 0);
  std::vector<std::unique_ptr<Constraint>> as; static_cast<ConstrainedSystem&>(sim).computeActiveSet(q0, q1, v, as); long total = 0;
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) {
    const bool k0 = s.fixed[size_t(i)], k1 = s.fixed[size_t(j)]; std::vector<const Constraint*> cs; for (const auto& c : as) { std::pair<int, int> b; c->getBodyIndices(b); if ((b.first == i && b.second == j) || (b.first == j && b.second == i)) cs.push_back(c.get()); } total += long(cs.size());
    if (k0 && k1) { vc_eqi(long(cs.size()), 0, AS); continue; }
    const long a = k0 ? j : i, b = k0 ? i : j; const Vector3s xa = q0.segment<3>(3 * a), xb = q0.segment<3>(3 * b); std::vector<Vector3s> ps; Vector3s m_ab; scalar l = 1;
    if (!box) { const scalar ra = W[size_t(a)].x(), rb = W[size_t(b)].x(), g = sq(q1.segment<3>(3 * a) - q1.segment<3>(3 * b)) - (ra + rb) * (ra + rb); apart2(g); m_ab = xa - xb; l = std::sqrt(sq(m_ab)); if (g <= 0) ps.push_back(xa + (ra / (ra + rb)) * (xb - xa)); }
    else {
#ifdef VC_NATIVE
      BoxBoxUtilities::isActive(q1.segment<3>(3 * a), rotOf(q1, n, a), W[size_t(a)], q1.segment<3>(3 * b), rotOf(q1, n, b), W[size_t(b)], m_ab, ps);
#else
      vc_assert(asked < g_asks.size(), AS); if (asked >= g_asks.size()) return; const Ask& k = g_asks[asked++]; vc_eq3(k.x0, q1.segment<3>(3 * a), AS); vc_eq3(k.x1, q1.segment<3>(3 * b), AS); vc_eq3(k.r0, W[size_t(a)], AS); vc_eq3(k.r1, W[size_t(b)], AS); for (int e = 0; e < 9; ++e) { vc_eq(k.R0(e / 3, e % 3), q1(3 * n + 9 * a + e), AS); vc_eq(k.R1(e / 3, e % 3), q1(3 * n + 9 * b + e), AS); } m_ab = k.n; ps = k.p;
#endif
    }
    vc_eqi(long(cs.size()), long(ps.size()), AS);
    for (size_t c = 0; c < cs.size() && c < ps.size(); ++c) { std::pair<int, int> id; cs[c]->getBodyIndices(id); const scalar sg = id.first == a ? 1 : -1; VectorXs m, pt; cs[c]->getWorldSpaceContactNormal(q0, m); vc_eq3(l * vec(m), sg * m_ab, AS); cs[c]->getWorldSpaceContactPoint(q0, pt);
      if (!k0 && !k1) { vc_eq3(vec(pt), ps[c], AS); vc_assert(box ? typeid(*cs[c]) == typeid(BodyBodyConstraint) : typeid(*cs[c]) == typeid(SphereSphereConstraint), AS); }
      else { vc_eqi(id.first, a, AS); vc_eqi(id.second, b, AS); if (box) { vc_eq3(vec(pt), ps[c], AS); vc_assert(typeid(*cs[c]) == typeid(KinematicObjectBodyConstraint), AS); } else { vc_eq3(l * (xa - vec(pt)), W[size_t(a)].x() * m_ab, AS); vc_assert(typeid(*cs[c]) == typeid(KinematicSphereSphereConstraint), AS); const scalar g = l - W[size_t(a)].x() - W[size_t(b)].x(); vc_eq(cs[c]->penetrationDepth(q0), g < 0 ? g : 0.0, AS); } } }
  }
  for (long t = 0; t < 2; ++t) for (long p = 0; p < (t ? nc : np); ++p) for (long i = 0; i < n; ++i) {
    std::vector<const Constraint*> cs; for (const auto& c : as) { std::pair<int, int> b; c->getBodyIndices(b); if (b.first == i && b.second == -1 && c->getStaticObjectIndex() == unsigned(p) && (typeid(*c) == typeid(StaticCylinderSphereConstraint)) == (t == 1)) cs.push_back(c.get()); } total += long(cs.size());
    if (s.fixed[size_t(i)]) { vc_eqi(long(cs.size()), 0, AS); continue; }
    const Vector3s x = q1.segment<3>(3 * i), y = q0.segment<3>(3 * i), w = W[size_t(i)]; std::vector<Vector3s> ps, ns; std::vector<scalar> ls;
    if (t) { const StaticCylinder& c = C[size_t(p)]; const scalar h = c.axis().dot(x - c.x()), g = sq(x - c.x()) - h * h - (c.r() - w.x()) * (c.r() - w.x()); apart2(g); const Vector3s d = c.x() + c.axis().dot(y - c.x()) * c.axis() - y; vc_assume(sq(d) > (vc_native() ? 1e-6 : 0)); vc_assume(c.axis().squaredNorm() == 1 || vc_native()); if (g >= 0) { ns.push_back(d); ls.push_back(std::sqrt(sq(d))); ps.push_back(w.x() * d); } }
    else if (box) { for (int k = 0; k < 8; ++k) { const Vector3s e(k & 1 ? w.x() : -w.x(), k & 2 ? w.y() : -w.y(), k & 4 ? w.z() : -w.z()); const scalar d = P[size_t(p)].n().dot(x + rotOf(q1, n, i) * e - P[size_t(p)].x()); apart2(d); if (d <= 0) { ps.push_back(-(rotOf(q0, n, i) * e)); ns.push_back(P[size_t(p)].n()); ls.push_back(1); } } }
    else { const scalar d = P[size_t(p)].n().dot(x - P[size_t(p)].x()) - w.x(); apart2(d); if (d <= 0) { ns.push_back(P[size_t(p)].n()); ps.push_back(w.x() * P[size_t(p)].n()); ls.push_back(1); } }
    vc_eqi(long(cs.size()), long(ps.size()), AS); for (size_t c = 0; c < cs.size() && c < ps.size(); ++c) { VectorXs m, pt; cs[c]->getWorldSpaceContactNormal(q0, m); vc_eq3(ls[c] * vec(m), ns[c], AS); cs[c]->getWorldSpaceContactPoint(q0, pt); vc_eq3(ls[c] * (y - vec(pt)), ps[c], AS); }
  }
  vc_eqi(long(as.size()), total, AS); vc_cover("done");
}
VC(activeSpheres) { simActive(2, 0, 0, false, 0, int(vc_choose("which", 4))); }
VC(activeBoxes) { simActive(2, 0, 0, false, 2, int(vc_choose("which", 4))); }
VC(activeSphereStatics) { const long k = vc_choose("k", 3); simActive(1, k == 0 ? 2 : k == 2, k == 1 ? 2 : k == 2, false, 0, int(vc_choose("which", 2))); }
VC(activeBoxPlane) { simActive(1, 1, 0, false, 2, int(vc_choose("which", 2))); }
VC(activeMany) { if (!vc_native()) { vc_cover("done"); return; } const bool b = vc_bool("boxes") != 0; simActive(vc_int("n", 0, 8), vc_int("np", 0, 2), b ? 0 : vc_int("nc", 0, 2), true, b ? 2 : 0, -1); }
// portals (spheres)
#define PA "with a portal, every pair touching in any periodic image has exactly one contact, and no other pair has one"
#define PN "a contact across a portal uses the start-of-step positions of the touching images"
namespace { struct Img { Vector3s x0, x1; }; }
VC(activePortalsMany)
{
  if (!vc_native()) { vc_cover("done"); return; } const long n = vc_int("n", 0, 8), np = vc_int("np", 1, 2); const scalar W = vc_real_in("W", 1, 2); Rb3d s; VectorXs q0 = VectorXs::Zero(12 * n), q1 = q0, r(n); std::vector<bool> fx;
  for (long i = 0; i < n; ++i) { addBody3d(s, 1); r(i) = vc_real_in("rad", 0.05, 0.3); s.gi[size_t(i)] = unsigned(i); s.fixed[size_t(i)] = vc_choose("kinematic", 6) == 0; s.geo.push_back(std::unique_ptr<RigidBodyGeometry>{new RigidBodySphere{r(i)}}); for (long k = 0; k < 3; ++k) { q1(3 * i + k) = vc_real_in("p", -0.55, 0.55) * W; q0(3 * i + k) = q1(3 * i + k) + (s.fixed[size_t(i)] ? 0.0 : vc_real_in("dq", -0.01, 0.01)); } setRot(q0, n, i, vc_rot3("R0")); setRot(q1, n, i, rotOf(q0, n, i)); }
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) clear3(q0.segment<3>(3 * i), q0.segment<3>(3 * j));
  RigidBody3DSim sim; RigidBody3DState& st = sim.m_sim_state; s.set(st); std::vector<Vector3s> ex; for (long p = 0; p < np; ++p) ex.push_back(p ? Vector3s::UnitZ() : Vector3s::UnitX()); std::vector<std::vector<Img>> im; bool both = false;
  for (const Vector3s& e : ex) { const StaticPlane a{Vector3s(-0.5 * W * e), e}, b{Vector3s(0.5 * W * e), Vector3s(-e)}; Array3i m(1, 0, 0); for (int t = 0; t < 2; ++t) { const Vector3s ta = t ? a.t1() : a.t0(), tb = t ? b.t1() : b.t0(); m(1 + t) = ta.dot(tb) > 0 ? -1 : 1; } st.addPlanarPortal(PlanarPortal{a, b, m}); }
  for (long i = 0; i < n; ++i) { im.emplace_back(); im.back().push_back(Img{q0.segment<3>(3 * i), q1.segment<3>(3 * i)}); for (const Vector3s& e : ex) { const scalar c = e.dot(q1.segment<3>(3 * i)), lo = c + 0.5 * W - r(i), hi = 0.5 * W - c - r(i); apart2(lo); apart2(hi); both = both || (lo <= 0 && hi <= 0); if (lo > 0 && hi > 0) continue; const Vector3s d = (lo <= 0 ? W : -W) * e; im.back().push_back(Img{q0.segment<3>(3 * i) + d, q1.segment<3>(3 * i) + d}); } }
  vc_assume(!both); for (long i = 0; i < n; ++i) for (size_t a = 1; a < im[size_t(i)].size(); ++a) vc_assume(sq(im[size_t(i)][a].x1 - im[size_t(i)][0].x1) > 4 * r(i) * r(i));
  const VectorXs v = VectorXs::Zero(6 * n); std::vector<std::unique_ptr<Constraint>> as; static_cast<ConstrainedSystem&>(sim).computeActiveSet(q0, q1, v, as); long total = 0;
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) {
    const scalar R = r(i) + r(j), g = sq(q1.segment<3>(3 * i) - q1.segment<3>(3 * j)) - R * R; apart2(g); const bool k0 = s.fixed[size_t(i)], k1 = s.fixed[size_t(j)]; const bool skip = k0 && k1, U = g <= 0 && !skip; std::vector<std::pair<size_t, size_t>> t;
    for (size_t a = 0; a < im[size_t(i)].size(); ++a) for (size_t b = 0; b < im[size_t(j)].size(); ++b) { if ((!a && !b) || skip) continue; const scalar e = sq(im[size_t(i)][a].x1 - im[size_t(j)][b].x1) - R * R; apart2(e); if (e <= 0 && !(a && b && U)) t.emplace_back(a, b); }
    std::vector<const Constraint*> cs; for (const auto& c : as) { std::pair<int, int> b; c->getBodyIndices(b); if ((b.first == i && b.second == j) || (b.first == j && b.second == i)) cs.push_back(c.get()); } total += long(cs.size()); vc_eqi(long(cs.size()), (U ? 1 : 0) + (t.empty() ? 0 : 1), PA);
    for (const Constraint* c : cs) { VectorXs m; c->getWorldSpaceContactNormal(q0, m); std::pair<int, int> b; c->getBodyIndices(b); const scalar sg = b.first == i ? 1 : -1; bool ok = U && (vec(m) - sg * (im[size_t(i)][0].x0 - im[size_t(j)][0].x0).normalized()).norm() < 1e-9; for (const auto& k : t) ok = ok || (vec(m) - sg * (im[size_t(i)][k.first].x0 - im[size_t(j)][k.second].x0).normalized()).norm() < 1e-9; vc_assert(ok, PN); if (k0 != k1) vc_eqi(b.first, k0 ? j : i, PN); }
  }
  vc_eqi(long(as.size()), total, PA); vc_cover("done");
}
