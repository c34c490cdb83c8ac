// Round trip of everything a RigidBody2D checkpoint stores.
#include "ser.h"
#include "rigidbody2d/RigidBody2DState.h"
#include "rigidbody2d/RigidBody2DUtilities.h"
#include "rigidbody2d/ConstraintCache.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/SymplecticEulerMap.h"
#include "rigidbody2d/VerletMap.h"
#include "scisim/Utilities.h"
#include "cache_rb2d.h"
#include <typeinfo>
// BOUND state 1 2
// BOUND cache 1 2
// SECS state 250
#include "st_rb2d.h"
VC(plane_) { const RigidBody2DStaticPlane a = plane("p"); a.serialize(vc_os(1)); const RigidBody2DStaticPlane b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done"); }
VC(portal_)
{
  const bool le = vc_bool("leesEdwards") != 0; // a portal without a velocity has no bounds
  PlanarPortal a{plane("A"), plane("B"), le ? vc_real("pv") : 0.0, le ? vc_pos("bounds") : SCALAR_INFINITY};
  if (vc_native()) { if (a.isLeesEdwards()) a.updateMovingPortals(vc_real_in("t", 0, 3)); }
  a.serialize(vc_os(1)); const PlanarPortal b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(circle)
{
  const CircleGeometry a{vc_pos("r")}; a.serialize(vc_os(1)); vc_assert(Utilities::deserialize<RigidBody2DGeometryType>(vc_is(1)) == RigidBody2DGeometryType::CIRCLE, "geometry type tag");
  const CircleGeometry b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(box)
{
  const BoxGeometry a{Vector2s{vc_pos("rx"), vc_pos("ry")}}; a.serialize(vc_os(1)); vc_assert(Utilities::deserialize<RigidBody2DGeometryType>(vc_is(1)) == RigidBody2DGeometryType::BOX, "geometry type tag");
  const BoxGeometry b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(gravity)
{
  const NearEarthGravityForce a{vc_vec2("g")}; a.serialize(vc_os(1)); vc_assert(Utilities::deserialize<RigidBody2DForceType>(vc_is(1)) == RigidBody2DForceType::NEAR_EARTH_GRAVITY, "force type tag");
  const NearEarthGravityForce b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(integrator)
{
  std::unique_ptr<UnconstrainedMap> m;
  switch (vc_choose("which", 3)) { case 0: m.reset(new SymplecticEulerMap); break; case 1: m.reset(new VerletMap); break; default: break; }
  RigidBody2DUtilities::serialize(m, vc_os(1));
  const std::unique_ptr<UnconstrainedMap> n = RigidBody2DUtilities::deserializeUnconstrainedMap(vc_is(1));
  vc_stream_done(1);
  vc_assert((m == nullptr) == (n == nullptr), VC_SAME);
  if (m) { vc_assert(typeid(*m) == typeid(*n), VC_SAME); vc_same(m->name(), n->name(), VC_SAME); }
  vc_cover("done");
}
VC(state)
{
  const long n = vc_size("n", 0, 12), ng = 1 + vc_size("ngeo", 0, 3);
  Rb2d s = makeBodies2d(n, ng); makeExtras2d(s);
  const RigidBody2DState a = s.state();
  // the constructor stores what it was given
  vc_smd(a.q(), s.q); vc_smd(a.v(), s.v); vc_smi(long(a.geometry().size()), ng);
  a.serialize(vc_os(1));
  RigidBody2DState b;
  if (vc_bool("reused")) { b.addCircleGeometry(3.0); b.addBody(Vector2s{1, 2}, 0.5, Vector2s{3, 4}, 1.5, 1.0, 0, true); b.planes().emplace_back(Vector2s{0, 0}, Vector2s{0, 1}); }
  b.deserialize(vc_is(1));
  vc_stream_done(1);
  same(a, b);
  vc_cover("done");
}
VC(cache) { vc_cache_roundtrip<ConstraintCache>(Mk{}); }
