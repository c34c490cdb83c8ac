// RigidBody3D states: any state, and equality of two states
#ifndef VC_ST_RB3D_H
#define VC_ST_RB3D_H
#include "ser.h"
#include "rigidbody3d/RigidBody3DState.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/Portals/PlanarPortal.h"
#include <typeinfo>
VC_FIELD(m_g) VC_FIELD(m_theta) VC_FIELDA(m_portal_multiplier)
static void same(const StaticPlane& a, const StaticPlane& b) { vc_smd(a.x(), b.x()); vc_smd(a.v(), b.v()); vc_smd(a.n(), b.n()); vc_smd(a.omega(), b.omega()); }
static void same(const StaticCylinder& a, const StaticCylinder& b) { vc_smd(a.x(), b.x()); vc_smd(a.v(), b.v()); vc_smd(a.axis(), b.axis()); vc_smd(a.omega(), b.omega()); vc_sm(a.r(), b.r()); VC_CMPF(m_theta, a, b); if (vc_native()) vc_smd(a.R().coeffs(), b.R().coeffs()); }
static Vector3s ported(const PlanarPortal& p, const Vector3s& x, bool second) { Vector3s y; p.teleportPoint(x, second, y); return y; }
static void same(const PlanarPortal& a, const PlanarPortal& b)
{
  same(a.planeA(), b.planeA()); same(a.planeB(), b.planeB());
  if (vc_native()) { const Vector3s x = vc_vec3("probe"); vc_smd(ported(a, x, false), ported(b, x, false)); vc_smd(ported(a, x, true), ported(b, x, true)); }
}
static void same(const RigidBodyGeometry& a, const RigidBodyGeometry& b)
{
  vc_assert(a.getType() == b.getType(), VC_SAME); vc_same(a.name(), b.name(), VC_SAME);
  if (a.getType() == RigidBodyGeometryType::SPHERE) vc_sm(static_cast<const RigidBodySphere&>(a).r(), static_cast<const RigidBodySphere&>(b).r());
  else vc_smd(static_cast<const RigidBodyBox&>(a).halfWidths(), static_cast<const RigidBodyBox&>(b).halfWidths());
}
static void same(const Force& a, const Force& b)
{
  vc_assert(typeid(a) == typeid(b), VC_SAME);
  const auto &x = static_cast<const NearEarthGravityForce&>(a), &y = static_cast<const NearEarthGravityForce&>(b); VC_CMPF(m_g, x, y);
}
static StaticPlane plane(const char* nm) { StaticPlane p{vc_vec3(nm), vc_unit3(nm)}; p.v() = vc_vec3(nm); p.omega() = vc_vec3(nm); return p; }
static StaticCylinder cylinder(const char* nm) { StaticCylinder c{vc_vec3(nm), vc_unit3(nm), vc_pos(nm)}; c.setOrientation(vc_unit3(nm), vc_real(nm)); c.omega() = vc_vec3(nm); return c; }
static PlanarPortal portal() { const Array3i m{int(vc_int("m0", 0, 1)), int(vc_int("m1", 0, 1)), int(vc_int("m2", 0, 1))}; return PlanarPortal{plane("A"), plane("B"), m}; }
static void same(const RigidBody3DState& a, const RigidBody3DState& b)
{
  vc_smi(a.nbodies(), b.nbodies()); vc_smi(a.ngeo(), b.ngeo());
  vc_smd(a.q(), b.q()); vc_smd(a.v(), b.v()); vc_sms(a.M0(), b.M0()); vc_sms(a.Minv0(), b.Minv0()); vc_sms(a.M(), b.M()); vc_sms(a.Minv(), b.Minv());
  vc_smb(a.fixed(), b.fixed()); vc_smb(a.indices(), b.indices());
  for (size_t i = 0; i < a.ngeo(); ++i) same(*a.geometry()[i], *b.geometry()[i]);
  vc_smi(long(a.numStaticPlanes()), long(b.numStaticPlanes())); for (size_t i = 0; i < a.numStaticPlanes(); ++i) same(a.staticPlane(i), b.staticPlane(i));
  vc_smi(long(a.numStaticCylinders()), long(b.numStaticCylinders())); for (size_t i = 0; i < a.numStaticCylinders(); ++i) same(a.staticCylinder(i), b.staticCylinder(i));
  vc_smi(long(a.numPlanarPortals()), long(b.numPlanarPortals())); for (size_t i = 0; i < a.numPlanarPortals(); ++i) same(a.planarPortal(i), b.planarPortal(i));
  vc_smi(long(a.forces().size()), long(b.forces().size())); for (size_t i = 0; i < a.forces().size(); ++i) same(*a.forces()[i], *b.forces()[i]);
  vc_assert(a.boundaryBehavior() == b.boundaryBehavior(), VC_SAME); vc_smd(a.boundaryMin(), b.boundaryMin()); vc_smd(a.boundaryMax(), b.boundaryMax());
}
struct Rb3d { std::vector<Vector3s> X, V, w, I0; std::vector<scalar> M; std::vector<VectorXs> R; std::vector<bool> fixed; std::vector<unsigned> gi; std::vector<std::unique_ptr<RigidBodyGeometry>> geo;
  void set(RigidBody3DState& a) const { a.setState(X, V, M, R, w, I0, fixed, gi, geo); }
  Matrix33sr rot(long i) const { Matrix33sr Q; for (int k = 0; k < 9; ++k) Q(k / 3, k % 3) = R[i](k); return Q; } };
static std::unique_ptr<RigidBodyGeometry> anyGeo3d() { if (vc_bool("box")) return std::unique_ptr<RigidBodyGeometry>{new RigidBodyBox{Vector3s{vc_pos("rx"), vc_pos("ry"), vc_pos("rz")}}}; return std::unique_ptr<RigidBodyGeometry>{new RigidBodySphere{vc_pos("r")}}; }
static void addBody3d(Rb3d& s, long ng)
{
  s.X.push_back(vc_vec3("X")); s.V.push_back(vc_vec3("V")); s.w.push_back(vc_vec3("w")); s.I0.push_back(Vector3s{vc_pos("I"), vc_pos("I"), vc_pos("I")}); s.M.push_back(vc_pos("m"));
  const Matrix33sr Q = vc_rot3("R"); VectorXs r(9); for (int k = 0; k < 9; ++k) r(k) = Q(k / 3, k % 3); s.R.push_back(r);
  s.fixed.push_back(vc_bool("fixed") != 0); s.gi.push_back(unsigned(vc_int("g", 0, ng - 1)));
}
static void makeBodies3d(Rb3d& s, long n, long ng) { for (long i = 0; i < ng; ++i) s.geo.push_back(anyGeo3d()); for (long i = 0; i < n; ++i) addBody3d(s, ng); }
static void makeExtras3d(RigidBody3DState& a)
{
  const long np = vc_size("nplanes", 0, 2), nc = vc_size("ncyl", 0, 2), npo = vc_size("nportals", 0, 2), nf = vc_size("nforces", 0, 2);
  for (long i = 0; i < np; ++i) a.addStaticPlane(plane("p"));
  for (long i = 0; i < nc; ++i) a.addStaticCylinder(cylinder("c"));
  for (long i = 0; i < npo; ++i) a.addPlanarPortal(portal());
  for (long i = 0; i < nf; ++i) a.addForce(NearEarthGravityForce{vc_vec3("g")});
  a.setBoundaryBehavior(vc_bool("exit") ? SimBoundaryBehavior::EXIT : SimBoundaryBehavior::NONE); a.setBoundaryMin(vc_vec3("min")); a.setBoundaryMax(vc_vec3("max"));
}
#endif
