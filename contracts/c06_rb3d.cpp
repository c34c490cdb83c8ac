// Broad phase of RigidBody3D systems.
// OPT fpto_safety false
// NATIVEONLY gridMany gridFar
#include "st_rb3d.h"
#include "rigidbody3d/SpatialGridDetector.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
static AABB mk(const Array3s& a, const Array3s& b) { AABB r; r.min() = a; r.max() = b; return r; }
#include "c06.h"
VC(overlaps) { overlapsExact<3>(); }
// BOUND allPairs 2 3
VC(allPairs) { allPairs<3>(vc_size("n", 0, 5), [](const std::vector<AABB>& b, Pairs& p) { SpatialGridDetector::getPotentialOverlapsAllPairs(b, p); }); }
static void G(const std::vector<AABB>& b, Pairs& p) { SpatialGridDetector::getPotentialOverlaps(b, p); }
VC(gridXY) { grid<3>(G, 1, 2, 2); }
VC(gridYZ) { grid<3>(G, 1, 3, 0); }
VC(gridXZ) { grid<3>(G, 5, 5, 1); }
// BOUND grid.* 1 1
// SECS grid.* 240
VC(gridMany) { gridMany<3>(G); }
// TRIALS gridFar 4000
VC(gridFar) { gridFar<3>(G); }
#define EN "the bounding box of a body is the smallest one that encloses it"
static Matrix33sr frame() { Matrix33sr R; if (vc_native()) R = vc_rot3("R"); else vc_fill("R", R.data(), 9); return R; }
// the box [lo,hi] is the bounding box of the points, enlarged by r
static void tight(const std::vector<Vector3s>& p, scalar r, const Array3s& lo, const Array3s& hi)
{
  const scalar e = vc_native() ? 1e-12 : 0.0; for (int k = 0; k < 3; ++k) { bool tl = false, th = false; for (const Vector3s& v : p) { vc_assert((lo(k) <= v(k) - r + e) & (v(k) + r <= hi(k) + e), EN); tl |= v(k) - r <= lo(k) + e; th |= v(k) + r >= hi(k) - e; } vc_assert(tl, EN); vc_assert(th, EN); }
}
VC(sphere) { const scalar r = vc_pos("r"); const RigidBodySphere g{r}; const Vector3s x = vc_vec3("x"); Array3s lo, hi; g.computeAABB(x, frame(), lo, hi); tight({x}, r, lo, hi); vc_cover("done"); }
VC(box) { const Vector3s w(vc_pos("wx"), vc_pos("wy"), vc_pos("wz")), x = vc_vec3("x"); const Matrix33sr R = frame(); const RigidBodyBox g{w}; Array3s lo, hi; g.computeAABB(x, R, lo, hi); std::vector<Vector3s> p; for (int i = 0; i < 8; ++i) p.push_back(x + R * Vector3s(i & 1 ? w.x() : -w.x(), i & 2 ? w.y() : -w.y(), i & 4 ? w.z() : -w.z())); tight(p, 0, lo, hi); vc_cover("done"); }
VC(staple) { const scalar D = vc_pos("D"), w = D + vc_pos("w"), l = D + vc_pos("l"); const RigidBodyStaple g(w, l, D); const Vector3s x = vc_vec3("x"); const Matrix33sr R = frame(); Array3s lo, hi; g.computeAABB(x, R, lo, hi); std::vector<Vector3s> p; for (const Vector3s& v : g.points()) p.push_back(x + R * v); tight(p, g.r(), lo, hi); vc_eqi(long(p.size()), 4, EN); vc_cover("done"); }
// BOUND mesh 3 4
VC(mesh) { const long n = vc_size("n", 1, 20); RigidBodyTriangleMesh g; g.m_verts.resize(3, n); vc_fill("verts", g.m_verts.data(), 3 * n); const Vector3s x = vc_vec3("x"); const Matrix33sr R = frame(); Array3s lo, hi; g.computeAABB(x, R, lo, hi); std::vector<Vector3s> p; for (long i = 0; i < n; ++i) p.push_back(x + R * Vector3s(g.m_verts.col(i))); tight(p, 0, lo, hi); vc_cover("done"); }
