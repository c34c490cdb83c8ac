// RigidBody2D states: any state, and equality of two states
#ifndef VC_ST_RB2D_H
#define VC_ST_RB2D_H
#include "ser.h"
#include "rigidbody2d/RigidBody2DState.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxGeometry.h"
#include <typeinfo>
VC_FIELD(m_g)
static void same(const RigidBody2DStaticPlane& a, const RigidBody2DStaticPlane& b) { vc_smd(a.x(), b.x()); vc_smd(a.v(), b.v()); vc_smd(a.n(), b.n()); vc_smd(a.t(), b.t()); vc_sm(a.omega(), b.omega()); }
static void same(const PlanarPortal& a, const PlanarPortal& b)
{
  same(a.planeA(), b.planeA()); same(a.planeB(), b.planeB()); vc_sm(a.bounds(), b.bounds()); vc_sm(a.v(), b.v()); vc_sm(a.delta(), b.delta());
  vc_smd(a.transformedAx(), b.transformedAx()); vc_smd(a.transformedBx(), b.transformedBx()); vc_smi(a.isLeesEdwards(), b.isLeesEdwards());
}
static void same(const RigidBody2DGeometry& a, const RigidBody2DGeometry& b)
{
  vc_assert(a.type() == b.type(), VC_SAME);
  if (a.type() == RigidBody2DGeometryType::CIRCLE) vc_sm(static_cast<const CircleGeometry&>(a).r(), static_cast<const CircleGeometry&>(b).r());
  else vc_smd(static_cast<const BoxGeometry&>(a).r(), static_cast<const BoxGeometry&>(b).r());
}
static void same(const RigidBody2DForce& a, const RigidBody2DForce& b)
{
  vc_assert(typeid(a) == typeid(b), VC_SAME);
  const auto &x = static_cast<const NearEarthGravityForce&>(a), &y = static_cast<const NearEarthGravityForce&>(b); VC_CMPF(m_g, x, y);
}
static RigidBody2DStaticPlane plane(const char* nm) { RigidBody2DStaticPlane p{vc_vec2(nm), vc_unit2(nm)}; p.setV(vc_vec2(nm)); p.setOmega(vc_real(nm)); return p; }
static void same(const RigidBody2DState& a, const RigidBody2DState& b)
{
  vc_smi(a.nbodies(), b.nbodies());
  vc_smd(a.q(), b.q()); vc_smd(a.v(), b.v()); vc_sms(a.M(), b.M()); vc_sms(a.Minv(), b.Minv()); vc_smd(a.geometryIndices(), b.geometryIndices());
  for (unsigned i = 0; i < a.nbodies(); ++i) vc_smi(a.fixed(int(i)), b.fixed(int(i)));
  vc_smi(long(a.geometry().size()), long(b.geometry().size())); for (size_t i = 0; i < a.geometry().size(); ++i) same(*a.geometry()[i], *b.geometry()[i]);
  vc_smi(long(a.planes().size()), long(b.planes().size())); for (size_t i = 0; i < a.planes().size(); ++i) same(a.planes()[i], b.planes()[i]);
  vc_smi(long(a.planarPortals().size()), long(b.planarPortals().size())); for (size_t i = 0; i < a.planarPortals().size(); ++i) same(a.planarPortals()[i], b.planarPortals()[i]);
  vc_smi(long(a.forces().size()), long(b.forces().size())); for (size_t i = 0; i < a.forces().size(); ++i) same(*a.forces()[i], *b.forces()[i]);
}
struct Rb2d { VectorXs q, v, m; std::vector<bool> fixed; VectorXu gi; std::vector<std::unique_ptr<RigidBody2DGeometry>> geo; std::vector<std::unique_ptr<RigidBody2DForce>> forces; std::vector<RigidBody2DStaticPlane> planes; std::vector<PlanarPortal> portals;
  RigidBody2DState state() const { return RigidBody2DState{q, v, m, fixed, gi, geo, forces, planes, portals}; } };
static std::unique_ptr<RigidBody2DGeometry> anyGeo2d() { if (vc_bool("box")) return std::unique_ptr<RigidBody2DGeometry>{new BoxGeometry{Vector2s{vc_pos("rx"), vc_pos("ry")}}}; return std::unique_ptr<RigidBody2DGeometry>{new CircleGeometry{vc_pos("r")}}; }
static Rb2d makeBodies2d(long n, long ng)
{
  Rb2d s; s.q = vc_vecx("q", 3 * n); s.v = vc_vecx("v", 3 * n); s.m.resize(3 * n);
  for (long i = 0; i < n; ++i) { s.m(3 * i) = s.m(3 * i + 1) = vc_pos("m"); s.m(3 * i + 2) = vc_pos("I"); }
  for (long i = 0; i < n; ++i) s.fixed.push_back(vc_bool("fixed") != 0);
  for (long i = 0; i < ng; ++i) s.geo.push_back(anyGeo2d());
  s.gi.resize(n); for (long i = 0; i < n; ++i) s.gi(i) = unsigned(vc_int("g", 0, ng - 1));
  return s;
}
static void makeExtras2d(Rb2d& s)
{
  const long np = vc_size("nplanes", 0, 3); for (long i = 0; i < np; ++i) s.planes.push_back(plane("p"));
  const long npo = vc_size("nportals", 0, 3); for (long i = 0; i < npo; ++i) s.portals.emplace_back(plane("A"), plane("B"), vc_real("pv"), vc_pos("pb"));
  const long nf = vc_size("nforces", 0, 3); for (long i = 0; i < nf; ++i) s.forces.emplace_back(new NearEarthGravityForce{vc_vec2("g")});
}
#endif
