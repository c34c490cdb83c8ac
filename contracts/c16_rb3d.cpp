// Setting, editing and copying a RigidBody3D state, and its bounding box and sphere.
#define VC_SAME "per-body data stays aligned and unchanged"
#include "st_rb3d.h"
#include "rigidbody3d/RigidBody3DSim.h"
// BOUND (set|reset_|planes) 2 3
// BOUND (copy|assign|boundingBox|boundingSphere) 1 2
// SECS (copy|assign) 300
static void holds(const RigidBody3DState& a, const Rb3d& s)
{
  const long n = long(s.X.size());
  vc_smi(a.nbodies(), n); vc_smi(a.q().size(), 12 * n); vc_smi(a.v().size(), 6 * n); vc_smb(a.fixed(), s.fixed); vc_smb(a.indices(), s.gi); vc_smi(a.ngeo(), long(s.geo.size()));
  for (const SparseMatrixsc* M : {&a.M(), &a.Minv(), &a.M0(), &a.Minv0()}) { vc_smi(M->rows(), 6 * n); vc_smi(M->cols(), 6 * n); }
  for (long i = 0; i < n; ++i) {
    for (long k = 0; k < 3; ++k) { vc_sm(a.q()(3 * i + k), s.X[i](k)); vc_sm(a.v()(3 * i + k), s.V[i](k)); vc_sm(a.v()(3 * n + 3 * i + k), s.w[i](k)); vc_sm(a.M0().valuePtr()[3 * n + 3 * i + k], s.I0[i](k)); vc_sm(a.M0().valuePtr()[3 * i + k], s.M[i]); }
    for (long k = 0; k < 9; ++k) vc_sm(a.q()(3 * n + 9 * i + k), s.R[i](k));
    vc_sm(a.getTotalMass(unsigned(i)), s.M[i]); vc_assert(a.isKinematicallyScripted(unsigned(i)) == s.fixed[i], VC_SAME); vc_smi(a.getGeometryIndexOfBody(unsigned(i)), s.gi[i]);
  }
  for (size_t i = 0; i < s.geo.size(); ++i) same(*a.geometry()[i], *s.geo[i]);
}
VC(set) { const long n = vc_size("n", 0, 5), ng = 1 + vc_size("ng", 0, 2); Rb3d s; makeBodies3d(s, n, ng); RigidBody3DState a; s.set(a); holds(a, s); vc_cover("done"); }
// a state that already held bodies
VC(reset_)
{
  Rb3d t; makeBodies3d(t, vc_size("n0", 0, 3), 1); RigidBody3DState a; t.set(a);
  const long n = vc_size("n", 0, 3); Rb3d s; makeBodies3d(s, n, 1); s.set(a); holds(a, s); vc_cover("done");
}
VC(planes)
{
  RigidBody3DState a; const long n = vc_size("n", 0, 4); std::vector<StaticPlane> ps; for (long i = 0; i < n; ++i) { ps.push_back(plane("p")); a.addStaticPlane(ps.back()); }
  a.addStaticCylinder(StaticCylinder{vc_vec3("c"), vc_unit3("axis"), vc_pos("r")}); const StaticCylinder c = a.staticCylinder(0);
  vc_smi(long(a.numStaticPlanes()), n); for (long i = 0; i < n; ++i) same(a.staticPlane(i), ps[i]);
  if (n) { const long k = vc_choose("k", n); a.deleteStaticPlane(k); ps.erase(ps.begin() + k); }
  vc_smi(long(a.numStaticPlanes()), long(ps.size())); for (size_t i = 0; i < ps.size(); ++i) same(a.staticPlane(i), ps[i]);
  vc_smi(long(a.numStaticCylinders()), 1); same(a.staticCylinder(0), c);
  vc_cover("done");
}
VC(copy)
{
  const long n = vc_size("n", 0, 4), ng = 1 + vc_size("ng", 0, 2); Rb3d s; makeBodies3d(s, n, ng); RigidBody3DState a; s.set(a); makeExtras3d(a);
  RigidBody3DState b{a}, c{a}; same(a, b);
  a.q().setZero(); a.v().setZero(); a.addStaticPlane(StaticPlane{Vector3s{0, 0, 0}, Vector3s{0, 1, 0}}); a.forces().clear(); for (long k = 0; k < a.M().nonZeros(); ++k) a.M().valuePtr()[k] = 0.0; a.setBoundaryMin(Vector3s{7, 7, 7});
  same(b, c);
  vc_cover("done");
}
VC(assign)
{
  const long n = vc_size("n", 0, 4); Rb3d s; makeBodies3d(s, n, 1); RigidBody3DState a; s.set(a); makeExtras3d(a);
  Rb3d t; makeBodies3d(t, 1, 1); RigidBody3DState b; t.set(b); b.addStaticPlane(StaticPlane{Vector3s{0, 0, 0}, Vector3s{0, 1, 0}});
  b = a; same(a, b);
  RigidBody3DState c{a}; RigidBody3DState& self = b; b = self; same(a, b);
  b.q().setConstant(3.0); b.v().setZero(); b.forces().clear(); b.setBoundaryMax(Vector3s{7, 7, 7});
  same(a, c);
  vc_cover("done");
}
static void extents(const Rb3d& s, long i, Vector3s& e)
{
  const RigidBodyGeometry& g = *s.geo[s.gi[i]]; const Matrix33sr R = s.rot(i);
  if (g.getType() == RigidBodyGeometryType::SPHERE) { const scalar r = static_cast<const RigidBodySphere&>(g).r(); e << r, r, r; return; }
  const Vector3s h = static_cast<const RigidBodyBox&>(g).halfWidths();
  for (int k = 0; k < 3; ++k) e(k) = std::fabs(R(k, 0)) * h(0) + std::fabs(R(k, 1)) * h(1) + std::fabs(R(k, 2)) * h(2);
}
// symbolically, several bodies are spheres (the box of any shape is under contract in C06); one body, and native runs, use both shapes
static void makeShapes(Rb3d& s, long n)
{
  s.geo.emplace_back(new RigidBodySphere{vc_pos("r")}); s.geo.emplace_back(new RigidBodyBox{Vector3s{vc_pos("rx"), vc_pos("ry"), vc_pos("rz")}});
  for (long i = 0; i < n; ++i) { addBody3d(s, 2); s.gi[i] = n == 1 || vc_native() ? unsigned(vc_choose("geo", 2)) : 0u; }
}
VC(boundingBox)
{
  const long n = 1 + vc_size("n", 0, 4); Rb3d s; makeShapes(s, n); RigidBody3DSim sim; s.set(sim.state());
  Vector3s lo, hi; sim.computeBoundingBox(lo(0), hi(0), lo(1), hi(1), lo(2), hi(2));
  for (long k = 0; k < 3; ++k) {
    bool l = false, h = false;
    for (long i = 0; i < n; ++i) {
      Vector3s e; extents(s, i, e); const scalar x = s.X[i](k), tol = vc_native() ? 1e-9 * (1 + std::fabs(x) + e(k)) : 0.0;
      vc_le(lo(k), x - e(k), "the box encloses every body"); vc_le(x + e(k), hi(k), "the box encloses every body");
      l = l | (lo(k) >= x - e(k) - tol); h = h | (hi(k) <= x + e(k) + tol);
    }
    vc_assert(l && h, "the box is the smallest one");
  }
  vc_cover("done");
}
VC(boundingSphere)
{
  const long n = 1 + vc_size("n", 0, 4); Rb3d s; makeShapes(s, n); RigidBody3DSim sim; s.set(sim.state());
  Vector3s lo, hi, c; scalar r; sim.computeBoundingBox(lo(0), hi(0), lo(1), hi(1), lo(2), hi(2)); sim.computeBoundingSphere(r, c);
  for (int k = 0; k < 3; ++k) vc_eq(c(k), 0.5 * (lo(k) + hi(k)), "the sphere is centred on the box");
  vc_eq(r * r, 0.25 * (hi - lo).squaredNorm(), "the sphere passes through the corners of the box"); vc_le(0, r, "the radius is non-negative");
  vc_cover("done");
}
