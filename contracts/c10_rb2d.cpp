// Portals of RigidBody2D systems.
// OPT fpto_safety false
#include "st_rb2d.h"
#include "rigidbody2d/RigidBody2DSim.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
#include "rigidbody2d/PythonScripting.h"
static RigidBody2DStaticPlane opposite(const RigidBody2DStaticPlane& A, const char* nm) { return RigidBody2DStaticPlane{vc_vec2(nm), Vector2s(-A.n())}; }
static void tele(const PlanarPortal& P, const Vector2s& x, bool second, Vector2s& y) { P.teleportPoint(x, second, y); }
#include "c10_2d.h"
#include "c10_sim.h"
// BOUND simStep 1 2
// SECS simStep 260
VC(simStep) { const long n = vc_size("n", 0, 4); RigidBody2DSim sim; sim.state() = makeBodies2d(n, 1).state(); simPortals<3>(sim, sim.state(), sim.state().planarPortals(), n); }
#define TB "a box touches the portal exactly when one of its points reaches one of the planes"
VC(boxTouch)
{
  const RigidBody2DStaticPlane A = plane("A"), B = plane("B"); const scalar v = vc_real("v"); PlanarPortal P{A, B, v, 0.0}; const Vector2s lo = vc_vec2("lo"), h(vc_pos("hx"), vc_pos("hy")); const Array2s mn = lo.array(), mx = (lo + h).array();
  // the deepest point of the box behind each plane
  const scalar da = A.n().dot(lo - A.x()) + (A.n().x() < 0 ? A.n().x() * h.x() : 0) + (A.n().y() < 0 ? A.n().y() * h.y() : 0), db = B.n().dot(lo - B.x()) + (B.n().x() < 0 ? B.n().x() * h.x() : 0) + (B.n().y() < 0 ? B.n().y() * h.y() : 0);
  if (vc_native()) vc_assume((std::fabs(da) > 1e-9) & (std::fabs(db) > 1e-9));
  bool which = vc_bool("init") != 0; const bool t = P.aabbTouchesPortal(mn, mx, which); vc_assert(t == ((da <= 0) | (db <= 0)), TB); vc_assume((da <= 0) != (db <= 0)); vc_assert(which == (db <= 0), TB);
  const Vector2s at(-A.n().y(), A.n().x()), bt(-B.n().y(), B.n().x()); vc_eq2(P.getKinematicVelocityOfAABB(mn, mx), -v * (da <= 0 ? at : bt), KV); vc_cover("done");
}
#define TC "a teleported collision keeps each body with its portal and plane, smaller body index first"
VC(teleportedCollision)
{
  const unsigned a = unsigned(vc_int("a", 0, 1000)), b = unsigned(vc_int("b", 0, 1000)), p = unsigned(vc_int("p", 0, 1000)), q = unsigned(vc_int("q", 0, 1000)); const bool u = vc_bool("u") != 0, w = vc_bool("w") != 0; vc_assume(a != b);
  const TeleportedCollision c{a, b, p, q, u, w}; const bool o = a < b; vc_eqi(c.bodyIndex0(), o ? a : b, TC); vc_eqi(c.bodyIndex1(), o ? b : a, TC); vc_eqi(c.portalIndex0(), o ? p : q, TC); vc_eqi(c.portalIndex1(), o ? q : p, TC); vc_eqi(c.plane0(), o ? u : w, TC); vc_eqi(c.plane1(), o ? w : u, TC);
  const unsigned d = unsigned(vc_int("d", 0, 1000)), e = unsigned(vc_int("e", 0, 1000)); vc_assume(d != e); const TeleportedCollision k{d, e, p, q, u, w};
  const unsigned a0 = o ? a : b, a1 = o ? b : a, d0 = d < e ? d : e, d1 = d < e ? e : d; vc_assert((c < k) == ((a0 < d0) | ((a0 == d0) & (a1 < d1))), "teleported collisions are ordered by their bodies"); vc_cover("done");
}
