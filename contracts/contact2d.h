// All 2D contact types, each under its construction contract (the requires clause: what the simulation establishes when it creates the contact).
#ifndef VC_CONTACT2D_H
#define VC_CONTACT2D_H
#include "contact.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
#include "ball2d/Constraints/BallStaticDrumConstraint.h"
#include "ball2d/Constraints/KinematicKickBallBallConstraint.h"
#include "ball2d/StaticGeometry/StaticPlane.h"
#include "ball2d/StaticGeometry/StaticDrum.h"
#include "rigidbody2d/BodyBodyConstraint.h"
#include "rigidbody2d/CircleCircleConstraint.h"
#include "rigidbody2d/KinematicKickCircleCircleConstraint.h"
#include "rigidbody2d/KinematicObjectCircleConstraint.h"
#include "rigidbody2d/StaticPlaneBodyConstraint.h"
#include "rigidbody2d/StaticPlaneCircleConstraint.h"
#include "rigidbody2d/TeleportedCircleCircleConstraint.h"
#include "rigidbody2d/RigidBody2DStaticPlane.h"
struct Sys {
  long n; VectorXs q, v; unsigned i, j;
  Sys(int d, bool two) : n(vc_size("n", two ? 2 : 1, 1000000)), q(vc_vecx("q", d * n)), v(vc_vecx("v", d * n)), i(0), j(0)
  {
    if (two) { i = unsigned(vc_int("i", 0, n - 2)); j = unsigned(vc_int("j", 1, n - 1)); vc_assume(i < j); }
    else i = unsigned(vc_int("i", 0, n - 1));
  }
  Vector2s x(unsigned k, int d) const { return Vector2s(q(d * k), q(d * k + 1)); }
};
inline void vc_apart(const Vector2s& a, const Vector2s& b) { vc_assume((a.x() != b.x()) | (a.y() != b.y())); }
template<class F> void ballBall(F f)
{
  Sys s(2, true); vc_apart(s.x(s.i, 2), s.x(s.j, 2));
  const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1");
  BallBallConstraint c(s.i, s.j, s.q, r0, r1, false);
  f(Contact<Lay2Ball, BallBallConstraint>(c, s.q, s.v, s.n, HAS_G | HAS_T | HAS_CP | HAS_N | HAS_H | TWO | HAS_GAP));
}
template<class F> void ballTele(F f)
{
  Sys s(2, true); const Vector2s x0 = vc_vec2("x0"), x1 = vc_vec2("x1"); vc_apart(x0, x1);
  const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1");
  BallBallConstraint c(s.i, s.j, x0, x1, r0, r1, true);
  f(Contact<Lay2Ball, BallBallConstraint>(c, s.q, s.v, s.n, HAS_G | HAS_T | HAS_CP | HAS_N | HAS_H | TWO));
}
template<class F> void ballKick(F f)
{
  Sys s(2, true); const Vector2s x0 = vc_vec2("x0"), x1 = vc_vec2("x1"), k = vc_vec2("kick"); vc_apart(x0, x1);
  const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1");
  KinematicKickBallBallConstraint c(s.i, s.j, x0, x1, r0, r1, k, true);
  f(Contact<Lay2Ball, KinematicKickBallBallConstraint>(c, s.q, s.v, s.n, HAS_G | HAS_T | HAS_CP | HAS_N | HAS_H | TWO));
}
template<class F> void ballPlane(F f)
{
  Sys s(2, false); const Vector2s x = vc_vec2("px"), n = vc_unit2("pn"), pv = vc_vec2("pv"); const scalar r = vc_pos("r");
  StaticPlane p(x, n); p.v() = pv;
  StaticPlaneConstraint c(s.i, r, p, unsigned(vc_int("pl", 0, 1000)));
  Contact<Lay2Ball, StaticPlaneConstraint> k(c, s.q, s.v, s.n, HAS_G | HAS_T | HAS_CP | HAS_N | HAS_H); k.hasSurface = true; k.surface << pv.x(), pv.y(), 0; f(k);
}
template<class F> void ballDrum(F f)
{
  Sys s(2, false); const Vector2s X = vc_vec2("X"); vc_apart(X, s.x(s.i, 2)); const scalar r = vc_pos("r");
  StaticDrumConstraint c(s.i, s.q, r, X, unsigned(vc_int("dr", 0, 1000)));
  f(Contact<Lay2Ball, StaticDrumConstraint>(c, s.q, s.v, s.n, HAS_G | HAS_T | HAS_CP | HAS_N | HAS_H | HAS_D));
}
template<class F> void body2Body(F f)
{
  Sys s(3, true); const Vector2s p = vc_vec2("p"), n = vc_unit2("nn");
  BodyBodyConstraint c(s.i, s.j, p, n, s.q);
  f(Contact<Lay2Rigid, BodyBodyConstraint>(c, s.q, s.v, s.n, HAS_CP | HAS_N | HAS_H | TWO));
}
template<class F> void circleCircle(F f)
{
  // requires: centres and contact point on the common centre line, as the simulation constructs them
  Sys s(3, true); const Vector2s n = vc_unit2("nn"); const scalar d = vc_pos("d"), r0 = vc_pos("r0"), r1 = vc_pos("r1");
  s.q(3 * s.j) = s.q(3 * s.i) - d * n.x(); s.q(3 * s.j + 1) = s.q(3 * s.i + 1) - d * n.y();
  const Vector2s p = s.x(s.i, 3) - ( r0 / ( r0 + r1 ) ) * d * n;
  CircleCircleConstraint c(s.i, s.j, n, p, r0, r1);
  f(Contact<Lay2Rigid, CircleCircleConstraint>(c, s.q, s.v, s.n, HAS_G | HAS_T | HAS_CP | HAS_N | HAS_H | TWO));
}
template<class F> void circleTele(F f)
{
  Sys s(3, true); const Vector2s x0 = vc_vec2("x0"), x1 = vc_vec2("x1"), d0 = vc_vec2("d0"), d1 = vc_vec2("d1"); vc_apart(x0, x1);
  const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1");
  TeleportedCircleCircleConstraint c(s.i, s.j, x0, x1, r0, r1, d0, d1, r0, r1);
  Contact<Lay2Rigid, TeleportedCircleCircleConstraint> k(c, s.q, s.v, s.n, HAS_G | HAS_CP | HAS_H | TWO); k.tele0 = x0.data(); k.tele1 = x1.data(); f(k);
}
template<class F> void circleKick(F f)
{
  Sys s(3, true); const Vector2s x0 = vc_vec2("x0"), x1 = vc_vec2("x1"), k = vc_vec2("kick"); vc_apart(x0, x1);
  const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1");
  KinematicKickCircleCircleConstraint c(s.i, s.j, x0, x1, r0, r1, k);
  Contact<Lay2Rigid, KinematicKickCircleCircleConstraint> k2(c, s.q, s.v, s.n, HAS_G | HAS_CP | HAS_H | TWO); k2.tele0 = x0.data(); k2.tele1 = x1.data(); f(k2);
}
template<class F> void circleKinObj(F f)
{
  Sys s(3, false); const Vector2s n = vc_unit2("nn"), x = vc_vec2("kx"), kv = vc_vec2("kv"); const scalar w = vc_real("kw"), r = vc_pos("r");
  KinematicObjectCircleConstraint c(s.i, r, n, unsigned(vc_int("kidx", 0, 1000)), x, kv, w);
  f(Contact<Lay2Rigid, KinematicObjectCircleConstraint>(c, s.q, s.v, s.n, HAS_G | HAS_CP | HAS_N | HAS_H));
}
template<class F> void body2Plane(F f)
{
  Sys s(3, false); const Vector2s x = vc_vec2("px"), n = vc_unit2("pn"), arm = vc_vec2("arm");
  RigidBody2DStaticPlane p(x, n);
  StaticPlaneBodyConstraint c(s.i, arm, p, unsigned(vc_int("pl", 0, 1000)));
  f(Contact<Lay2Rigid, StaticPlaneBodyConstraint>(c, s.q, s.v, s.n, HAS_CP | HAS_N | HAS_H));
}
template<class F> void circlePlane(F f)
{
  Sys s(3, false); const Vector2s x = vc_vec2("px"), n = vc_unit2("pn"); const scalar r = vc_pos("r");
  RigidBody2DStaticPlane p(x, n);
  StaticPlaneCircleConstraint c(s.i, unsigned(vc_int("pl", 0, 1000)), r, p);
  f(Contact<Lay2Rigid, StaticPlaneCircleConstraint>(c, s.q, s.v, s.n, HAS_G | HAS_CP | HAS_N | HAS_H));
}
#define EACH_CONTACT_2D(M) M(ballBall) M(ballTele) M(ballKick) M(ballPlane) M(ballDrum) M(body2Body) M(circleCircle) M(circleTele) M(circleKick) M(circleKinObj) M(body2Plane) M(circlePlane)
#endif
