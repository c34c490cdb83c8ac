// Portals of Ball2D systems.
// OPT fpto_safety false
#include "st_ball2d.h"
#include "ball2d/Ball2DSim.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
#include "ball2d/PythonScripting.h"
static StaticPlane opposite(const StaticPlane& A, const char* nm) { return StaticPlane{vc_vec2(nm), Vector2s(-A.n())}; }
static void tele(const PlanarPortal& P, const Vector2s& x, bool second, Vector2s& y) { if (second) P.teleportPointThroughPlaneB(x, y); else P.teleportPointThroughPlaneA(x, y); }
#include "c10_2d.h"
#define TB "a ball touches the portal exactly when it reaches one of the planes"
VC(ballTouch)
{
  const StaticPlane A = plane("A"), B = plane("B"); const scalar v = vc_real("v"), r = vc_pos("r"); PlanarPortal P{A, B, v, 0.0}; const Vector2s x = vc_vec2("x"); const scalar da = A.n().dot(x - A.x()) - r, db = B.n().dot(x - B.x()) - r;
  if (vc_native()) vc_assume((std::fabs(da) > 1e-9) & (std::fabs(db) > 1e-9));
  const bool a = da <= 0, b = db <= 0; vc_allow_exit((da <= 0) && (db <= 0)); bool which = vc_bool("init") != 0; const bool touches = P.ballTouchesPortal(x, r, which);
  vc_assert(!(a & b), "a ball that reaches both planes of a portal is rejected"); vc_assert(touches == (a | b), TB); vc_assume(a | b); vc_assert(which == b, TB);
  Vector2s y, w; P.teleportBall(x, r, y); tele(P, x, b, w); vc_eq2(y, w, "a ball that touches a plane goes through that plane");
  const Vector2s at(-A.n().y(), A.n().x()), bt(-B.n().y(), B.n().x()); vc_eq2(P.getKinematicVelocityOfBall(x, r), -v * (a ? at : bt), KV); vc_cover("done");
}
VC(bodies)
{
  const unsigned i = unsigned(vc_int("i", 0, 1000000)), p = unsigned(vc_int("p", 0, 1000000)); const bool w = vc_bool("w") != 0; const TeleportedBall b{i, p, w};
  vc_eqi(b.bodyIndex(), i, "a teleported body records what it was made from"); vc_eqi(b.portalIndex(), p, "a teleported body records what it was made from"); vc_assert(b.planeIndex() == w, "a teleported body records what it was made from"); vc_cover("done");
}
#include "c10_sim.h"
// BOUND simStep 1 2
VC(simStep) { const long n = vc_size("n", 0, 4); Ball2DSim sim; makeBalls(sim.state(), n); simPortals<2>(sim, sim.state(), sim.state().planarPortals(), n); }
#define TC "a teleported collision keeps each body with its portal and plane, smaller body index first"
VC(teleportedCollision)
{
  const unsigned a = unsigned(vc_int("a", 0, 1000)), b = unsigned(vc_int("b", 0, 1000)), p = unsigned(vc_int("p", 0, 1000)), q = unsigned(vc_int("q", 0, 1000)); const bool u = vc_bool("u") != 0, w = vc_bool("w") != 0; vc_assume(a != b);
  const TeleportedCollision c{a, b, p, q, u, w}; const bool o = a < b; vc_eqi(c.bodyIndex0(), o ? a : b, TC); vc_eqi(c.bodyIndex1(), o ? b : a, TC); vc_eqi(c.portalIndex0(), o ? p : q, TC); vc_eqi(c.portalIndex1(), o ? q : p, TC); vc_eqi(c.plane0(), o ? u : w, TC); vc_eqi(c.plane1(), o ? w : u, TC);
  const unsigned d = unsigned(vc_int("d", 0, 1000)), e = unsigned(vc_int("e", 0, 1000)); vc_assume(d != e); const TeleportedCollision k{d, e, p, q, u, w};
  const unsigned a0 = o ? a : b, a1 = o ? b : a, d0 = d < e ? d : e, d1 = d < e ? e : d; vc_assert((c < k) == ((a0 < d0) | ((a0 == d0) & (a1 < d1))), "teleported collisions are ordered by their bodies"); vc_cover("done");
}
