// Ball2D states: any state, and equality of two states
#ifndef VC_ST_BALL2D_H
#define VC_ST_BALL2D_H
#include "ser.h"
#include "ball2d/Ball2DState.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
#include <typeinfo>
VC_FIELD(m_g) VC_FIELD(m_k) VC_FIELD(m_power) VC_FIELD(m_v) VC_FIELD(m_dx)
static void same(const StaticDrum& a, const StaticDrum& b) { vc_smd(a.x(), b.x()); vc_sm(a.r(), b.r()); }
static void same(const StaticPlane& a, const StaticPlane& b) { vc_smd(a.x(), b.x()); vc_smd(a.v(), b.v()); vc_smd(a.n(), b.n()); vc_smd(a.t(), b.t()); }
static void same(const PlanarPortal& a, const PlanarPortal& b)
{
  same(a.planeA(), b.planeA()); same(a.planeB(), b.planeB()); vc_sm(a.bounds(), b.bounds());
  vc_smd(a.transformedAx(), b.transformedAx()); vc_smd(a.transformedBx(), b.transformedBx()); vc_smi(a.isLeesEdwards(), b.isLeesEdwards());
  VC_CMPF(m_v, a, b); VC_CMPF(m_dx, a, b);
}
static void same(const Ball2DForce& a, const Ball2DForce& b)
{
  vc_assert(typeid(a) == typeid(b), VC_SAME);
  if (typeid(a) == typeid(Ball2DGravityForce)) { const auto &x = static_cast<const Ball2DGravityForce&>(a), &y = static_cast<const Ball2DGravityForce&>(b); VC_CMPF(m_g, x, y); }
  if (typeid(a) == typeid(PenaltyForce)) { const auto &x = static_cast<const PenaltyForce&>(a), &y = static_cast<const PenaltyForce&>(b); VC_CMPF(m_k, x, y); VC_CMPF(m_power, x, y); }
}
static StaticPlane plane(const char* nm) { StaticPlane p{vc_vec2(nm), vc_unit2(nm)}; p.v() = vc_vec2(nm); return p; }
static PlanarPortal portal()
{
  const bool le = vc_bool("leesEdwards") != 0;
  PlanarPortal p{plane("A"), plane("B"), le ? vc_real("pv") : 0.0, le ? vc_pos("bounds") : SCALAR_INFINITY};
  if (le) p.updateMovingPortals(vc_real_in("t", 0, 3));
  return p;
}
static void same(Ball2DState& a, Ball2DState& b)
{
  vc_smi(a.nballs(), b.nballs());
  vc_smd(a.q(), b.q()); vc_smd(a.v(), b.v()); vc_smd(a.r(), b.r()); vc_smb(a.fixed(), b.fixed()); vc_sms(a.M(), b.M()); vc_sms(a.Minv(), b.Minv());
  vc_smi(long(a.staticDrums().size()), long(b.staticDrums().size())); for (size_t i = 0; i < a.staticDrums().size(); ++i) same(a.staticDrums()[i], b.staticDrums()[i]);
  vc_smi(long(a.staticPlanes().size()), long(b.staticPlanes().size())); for (size_t i = 0; i < a.staticPlanes().size(); ++i) same(a.staticPlanes()[i], b.staticPlanes()[i]);
  vc_smi(long(a.planarPortals().size()), long(b.planarPortals().size())); for (size_t i = 0; i < a.planarPortals().size(); ++i) same(a.planarPortals()[i], b.planarPortals()[i]);
  vc_smi(long(a.forces().size()), long(b.forces().size())); for (size_t i = 0; i < a.forces().size(); ++i) same(*a.forces()[i], *b.forces()[i]);
}
static void makeBalls(Ball2DState& a, long n)
{
  a.q() = vc_vecx("q", 2 * n); a.v() = vc_vecx("v", 2 * n); a.r().resize(n); vc_fill_pos("r", a.r().data(), n);
  for (long i = 0; i < n; ++i) a.fixed().push_back(vc_bool("fixed") != 0);
  VectorXs m(2 * n); for (long i = 0; i < n; ++i) m(2 * i) = m(2 * i + 1) = vc_pos("m");
  a.setMass(m);
}
static void makeExtras(Ball2DState& a)
{
  const long nd = vc_size("ndrums", 0, 3), np = vc_size("nplanes", 0, 3), npo = vc_size("nportals", 0, 3), nf = vc_size("nforces", 0, 4);
  for (long i = 0; i < nd; ++i) a.staticDrums().emplace_back(vc_vec2("dx"), vc_pos("dr"));
  for (long i = 0; i < np; ++i) a.staticPlanes().push_back(plane("p"));
  for (long i = 0; i < npo; ++i) a.planarPortals().emplace_back(plane("A"), plane("B"), vc_real("pv"), vc_pos("pb"));
  for (long i = 0; i < nf; ++i) { if (vc_bool("penalty")) a.forces().emplace_back(new PenaltyForce{vc_pos("k"), vc_pos("pow")}); else a.forces().emplace_back(new Ball2DGravityForce{vc_vec2("g")}); }
}
#endif
