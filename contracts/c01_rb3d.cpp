// Round trip of everything a RigidBody3D checkpoint stores.
#include "ser.h"
#include "rigidbody3d/RigidBody3DState.h"
#include "rigidbody3d/RigidBody3DUtilities.h"
#include "rigidbody3d/ConstraintCache.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#include "scisim/Utilities.h"
#include "scisim/StringUtilities.h"
#include "cache_rb3d.h"
#include <typeinfo>
// BOUND state 1 2
// BOUND cache 1 2
// SECS state 250
#include "st_rb3d.h"
VC(plane_) { const StaticPlane a = plane("p"); a.serialize(vc_os(1)); const StaticPlane b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done"); }
VC(cylinder_) { const StaticCylinder a = cylinder("c"); a.serialize(vc_os(1)); const StaticCylinder b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done"); }
VC(cylinder_assign) { const StaticCylinder a = cylinder("c"); a.serialize(vc_os(1)); StaticCylinder b = cylinder("old"); b.deserialize(vc_is(1)); vc_stream_done(1); same(a, b); vc_cover("done"); }
VC(portal_)
{
  const PlanarPortal a = portal();
  a.serialize(vc_os(1)); const PlanarPortal b{vc_is(1)}; vc_stream_done(1); same(a, b); 
  VC_CMPF(m_portal_multiplier, a, b);
  vc_cover("done");
}
VC(sphere)
{
  const RigidBodySphere a{vc_pos("r")}; a.serialize(vc_os(1)); vc_assert(Utilities::deserialize<RigidBodyGeometryType>(vc_is(1)) == RigidBodyGeometryType::SPHERE, "geometry type tag");
  const RigidBodySphere b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(box)
{
  const RigidBodyBox a{Vector3s{vc_pos("rx"), vc_pos("ry"), vc_pos("rz")}}; a.serialize(vc_os(1)); vc_assert(Utilities::deserialize<RigidBodyGeometryType>(vc_is(1)) == RigidBodyGeometryType::BOX, "geometry type tag");
  const RigidBodyBox b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(gravity)
{
  const NearEarthGravityForce a{vc_vec3("g")}; a.serialize(vc_os(1)); const std::string nm = StringUtilities::deserialize(vc_is(1)); vc_assert(nm == "near_earth_gravity", "force type tag");
  const NearEarthGravityForce b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(integrator)
{
  std::unique_ptr<UnconstrainedMap> m;
  switch (vc_choose("which", 4)) { case 0: m.reset(new DMVMap); break; case 1: m.reset(new SplitHamMap); break; case 2: m.reset(new ExponentialEulerMap); break; default: break; }
  RigidBody3DUtilities::serialize(m, vc_os(1));
  const std::unique_ptr<UnconstrainedMap> n = RigidBody3DUtilities::deserializeUnconstrainedMap(vc_is(1));
  vc_stream_done(1);
  vc_assert((m == nullptr) == (n == nullptr), VC_SAME);
  if (m) { vc_assert(typeid(*m) == typeid(*n), VC_SAME); vc_same(m->name(), n->name(), VC_SAME); }
  vc_cover("done");
}
VC(state)
{
  const long n = vc_size("n", 0, 8), ng = 1 + vc_size("ngeo", 0, 2);
  Rb3d s; makeBodies3d(s, n, ng);
  RigidBody3DState a; s.set(a); makeExtras3d(a);
  a.serialize(vc_os(1));
  RigidBody3DState b;
  if (vc_bool("reused")) { b.addStaticPlane(StaticPlane{Vector3s{0, 0, 0}, Vector3s{0, 1, 0}}); b.addForce(NearEarthGravityForce{Vector3s{0, 1, 0}}); }
  b.deserialize(vc_is(1));
  vc_stream_done(1);
  same(a, b);
  vc_cover("done");
}
VC(cache) { vc_cache_roundtrip<ConstraintCache>(Mk{}); }
