// All 3D contact types, each under its construction contract (the requires clause: what the simulation establishes when it creates the contact).
#ifndef VC_CONTACT3D_H
#define VC_CONTACT3D_H
#include "contact.h"
#include "rigidbody3d/Constraints/BodyBodyConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectBodyConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectSphereConstraint.h"
#include "rigidbody3d/Constraints/SphereBodyConstraint.h"
#include "rigidbody3d/Constraints/SphereSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticCylinderBodyConstraint.h"
#include "rigidbody3d/Constraints/StaticCylinderSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneBodyConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneBoxConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneSphereConstraint.h"
#include "rigidbody3d/Constraints/TeleportedSphereSphereConstraint.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
struct Sys3 {
  long n; VectorXs q, v; unsigned i, j;
  Sys3(bool two) : n(vc_size("n", two ? 2 : 1, 1000000)), q(vc_vecx("q", 12 * n)), v(vc_vecx("v", 6 * n)), i(0), j(0)
  {
    if (two) { i = unsigned(vc_int("i", 0, n - 2)); j = unsigned(vc_int("j", 1, n - 1)); vc_assume(i < j); }
    else i = unsigned(vc_int("i", 0, n - 1));
  }
  Vector3s x(unsigned k) const { return Vector3s(q(3 * k), q(3 * k + 1), q(3 * k + 2)); }
};
enum { ALL3 = HAS_G | HAS_T | HAS_CP | HAS_N | HAS_H };
template<class F> void body3Body(F f)
{
  Sys3 s(true); const Vector3s p = vc_vec3("p"), n = vc_unit3("nn");
  BodyBodyConstraint c(s.i, s.j, p, n, s.q);
  f(Contact<Lay3Rigid, BodyBodyConstraint>(c, s.q, s.v, s.n, ALL3 | TWO | HAS_D));
}
template<class F> void body3KinObj(F f)
{
  Sys3 s(true); const Vector3s p = vc_vec3("p"), n = vc_unit3("nn");
  KinematicObjectBodyConstraint c(s.i, s.j, p, n, s.q);
  f(Contact<Lay3Rigid, KinematicObjectBodyConstraint>(c, s.q, s.v, s.n, ALL3));
}
template<class F> void sphereKinObj(F f)
{
  Sys3 s(true); const Vector3s n = vc_unit3("nn"); const scalar r = vc_pos("r");
  KinematicObjectSphereConstraint c(s.i, r, n, s.j, s.x(s.j), Vector3s::Zero(), Vector3s::Zero());
  f(Contact<Lay3Rigid, KinematicObjectSphereConstraint>(c, s.q, s.v, s.n, ALL3));
}
template<class F> void sphereKinSphere(F f)
{
  Sys3 s(true); const Vector3s n = vc_unit3("nn"); const scalar r = vc_pos("r"), rk = vc_pos("rk");
  KinematicSphereSphereConstraint c(s.i, r, n, s.j, s.x(s.j), Vector3s::Zero(), Vector3s::Zero(), rk);
  f(Contact<Lay3Rigid, KinematicSphereSphereConstraint>(c, s.q, s.v, s.n, ALL3));
}
template<class F> void sphereSphere(F f)
{
  // requires: centres and contact point on the common centre line, as the simulation constructs them
  Sys3 s(true); const Vector3s n = vc_unit3("nn"); const scalar d = vc_pos("d"), r0 = vc_pos("r0"), r1 = vc_pos("r1");
  for (int k = 0; k < 3; ++k) s.q(3 * s.j + k) = s.q(3 * s.i + k) - d * n(k);
  const Vector3s p = s.x(s.i) - (r0 / (r0 + r1)) * d * n;
  SphereSphereConstraint c(s.i, s.j, n, p, r0, r1);
  f(Contact<Lay3Rigid, SphereSphereConstraint>(c, s.q, s.v, s.n, ALL3 | TWO | HAS_D));
}
inline StaticCylinder vc_cylinder(Sys3& s)
{
  const Vector3s X = vc_vec3("cx"), A = vc_unit3("ca"), W = vc_vec3("cw"); const scalar R = vc_pos("cr");
  StaticCylinder cyl(X, A, R); cyl.omega() = W;
  const Vector3s d = s.x(s.i) - X, e = d - A.dot(d) * A; vc_assume(e.squaredNorm() > 1.0e-6);
  return cyl;
}
template<class F> void body3Cylinder(F f)
{
  Sys3 s(false); StaticCylinder cyl = vc_cylinder(s); const Vector3s p = vc_vec3("p");
  StaticCylinderBodyConstraint c(s.i, p, cyl, unsigned(vc_int("ci", 0, 1000)), s.q);
  f(Contact<Lay3Rigid, StaticCylinderBodyConstraint>(c, s.q, s.v, s.n, HAS_H | NO_BODY));
}
template<class F> void sphereCylinder(F f)
{
  Sys3 s(false); StaticCylinder cyl = vc_cylinder(s); const scalar r = vc_pos("r");
  StaticCylinderSphereConstraint c(s.i, r, cyl, unsigned(vc_int("ci", 0, 1000)));
  f(Contact<Lay3Rigid, StaticCylinderSphereConstraint>(c, s.q, s.v, s.n, ALL3 | HAS_D));
}
template<class F> void body3Plane(F f)
{
  Sys3 s(false); const Vector3s p = vc_vec3("p"), n = vc_unit3("pn");
  StaticPlaneBodyConstraint c(s.i, p, n, s.q, unsigned(vc_int("pl", 0, 1000)));
  f(Contact<Lay3Rigid, StaticPlaneBodyConstraint>(c, s.q, s.v, s.n, ALL3 | HAS_D));
}
template<class F> void boxPlane(F f)
{
  Sys3 s(false); const Vector3s n = vc_unit3("pn"), w(vc_pos("w0"), vc_pos("w1"), vc_pos("w2")); const short corner = short(vc_choose("corner", 8));
  StaticPlaneBoxConstraint c(s.i, corner, n, w, s.q, unsigned(vc_int("pl", 0, 1000)));
  f(Contact<Lay3Rigid, StaticPlaneBoxConstraint>(c, s.q, s.v, s.n, ALL3 | HAS_D));
}
template<class F> void spherePlane(F f)
{
  Sys3 s(false); const Vector3s x = vc_vec3("px"), n = vc_unit3("pn"); const scalar r = vc_pos("r");
  StaticPlane p(x, n); p.v() = vc_vec3("pv"); p.omega() = vc_vec3("pw");
  StaticPlaneSphereConstraint c(s.i, r, p, unsigned(vc_int("pl", 0, 1000)));
  Contact<Lay3Rigid, StaticPlaneSphereConstraint> k(c, s.q, s.v, s.n, ALL3 | HAS_D);
  const Vector3s foot = s.x(s.i) - (s.x(s.i) - x).dot(n) * n;
  k.surface = p.v() + p.omega().cross(foot - x); k.hasSurface = true;
  f(k);
}
template<class F> void sphereTele(F f)
{
  Sys3 s(true); const Vector3s x0 = vc_vec3("x0"), x1 = vc_vec3("x1"); const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1");
  vc_assume((x0.x() != x1.x()) | (x0.y() != x1.y()) | (x0.z() != x1.z()));
  TeleportedSphereSphereConstraint c(s.i, s.j, x0, x1, r0, r1);
  Contact<Lay3Rigid, TeleportedSphereSphereConstraint> k(c, s.q, s.v, s.n, ALL3 | TWO | HAS_D); k.tele0 = x0.data(); k.tele1 = x1.data(); f(k);
}
#define EACH_CONTACT_3D(M) M(body3Body) M(body3KinObj) M(sphereKinObj) M(sphereKinSphere) M(sphereSphere) M(body3Cylinder) M(sphereCylinder) M(body3Plane) M(boxPlane) M(spherePlane) M(sphereTele)
#endif
