// Round trip of everything a Ball2D checkpoint stores.
#include "ser.h"
#include "ball2d/Ball2DState.h"
#include "ball2d/Ball2DUtilities.h"
#include "ball2d/ConstraintCache.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
#include "ball2d/SymplecticEulerMap.h"
#include "ball2d/VerletMap.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
#include "ball2d/Constraints/BallStaticDrumConstraint.h"
#include "scisim/StringUtilities.h"
#include "cache_ball2d.h"
#include <typeinfo>
// BOUND state.* 1 2
// BOUND cache.* 1 2

// SECS state.* 200
#include "st_ball2d.h"
VC(drum) { const StaticDrum a{vc_vec2("x"), vc_pos("r")}; a.serialize(vc_os(1)); const StaticDrum b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done"); }
VC(plane_) { const StaticPlane a = plane("p"); a.serialize(vc_os(1)); const StaticPlane b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done"); }
// bounds/offset of a Lees-Edwards portal come from fmod, which has no contract here: offset written directly
VC(portal_)
{
  const bool le = vc_bool("leesEdwards") != 0; // a portal without a velocity has no bounds
  PlanarPortal a{plane("A"), plane("B"), le ? vc_real("pv") : 0.0, le ? vc_pos("bounds") : SCALAR_INFINITY};
  if (vc_native()) { if (a.isLeesEdwards()) a.updateMovingPortals(vc_real_in("t", 0, 3)); }
  a.serialize(vc_os(1)); const PlanarPortal b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(gravity)
{
  const Ball2DGravityForce a{vc_vec2("g")}; a.serialize(vc_os(1)); const std::string nm = StringUtilities::deserialize(vc_is(1)); vc_assert(nm == "ball2d_gravity_force", "force type tag");
  const Ball2DGravityForce b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(penalty)
{
  const PenaltyForce a{vc_pos("k"), vc_pos("p")}; a.serialize(vc_os(1)); const std::string nm = StringUtilities::deserialize(vc_is(1)); vc_assert(nm == "hertzian_penalty", "force type tag");
  const PenaltyForce b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(integrator)
{
  std::unique_ptr<UnconstrainedMap> m;
  switch (vc_choose("which", 3)) { case 0: m.reset(new SymplecticEulerMap); break; case 1: m.reset(new VerletMap); break; default: break; }
  Ball2DUtilities::serialize(m, vc_os(1));
  const std::unique_ptr<UnconstrainedMap> n = Ball2DUtilities::deserializeUnconstrainedMap(vc_is(1));
  vc_stream_done(1);
  vc_assert((m == nullptr) == (n == nullptr), VC_SAME);
  if (m) { vc_assert(typeid(*m) == typeid(*n), VC_SAME); vc_same(m->name(), n->name(), VC_SAME); }
  vc_cover("done");
}
template <class T> static void many(const T& (*at)(const Ball2DState&, size_t), size_t n, const Ball2DState& a, const Ball2DState& b) { for (size_t i = 0; i < n; ++i) same(at(a, i), at(b, i)); }
VC(state)
{
  Ball2DState a;
  makeBalls(a, vc_size("n", 0, 12));
  makeExtras(a);
  a.serialize(vc_os(1));
  Ball2DState b;
  if (vc_bool("reused")) { b.pushBallBack(Vector2s{1, 2}, Vector2s{3, 4}, 1.0, 2.0, true); b.staticDrums().emplace_back(Vector2s{0, 0}, 1.0); b.forces().emplace_back(new Ball2DGravityForce{Vector2s{0, 1}}); }
  b.deserialize(vc_is(1));
  vc_stream_done(1);
  same(a, b);
  vc_cover("done");
}
VC(cache) { vc_cache_roundtrip<ConstraintCache>(Mk{}); }
