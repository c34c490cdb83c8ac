// NATIVEONLY .*
// TRIALS .* 300
#include "cli.h"
#define main scisim_main
#include "rigidbody2dcli/rigidbody2d_cli.cpp"
#undef main
#include "rigidbody2d/SymplecticEulerMap.h"
#include "rigidbody2d/VerletMap.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxGeometry.h"
static std::unique_ptr<UnconstrainedMap> makeMap() { if (vc_bool("verlet")) return std::unique_ptr<UnconstrainedMap>{new VerletMap}; return std::unique_ptr<UnconstrainedMap>{new SymplecticEulerMap}; }
static bool g_noPortals = false;
static RigidBody2DSim makeSim()
{
  const long n = vc_int("n", 0, 5);
  std::vector<std::unique_ptr<RigidBody2DGeometry>> geo; geo.emplace_back(new CircleGeometry{0.5}); geo.emplace_back(new BoxGeometry{Vector2s{0.4, 0.7}}); geo.emplace_back(new CircleGeometry{0.3});
  VectorXs q(3 * n), v(3 * n), m(3 * n); std::vector<bool> fixed; VectorXu gi(n);
  // bodies on a line, far enough apart that box-box contacts stay rare but circles can meet
  for (long i = 0; i < n; ++i) { q.segment<3>(3 * i) << 1.3 * double(i) + vc_real_in("x", -0.2, 0.2), vc_real_in("y", -0.3, 0.3), vc_real("th"); v.segment<3>(3 * i) << vc_vec2("v"), vc_real("w"); gi(i) = vc_bool("small") ? 2 : 0; fixed.push_back(vc_int("fixed", 0, 4) == 0);
    scalar mm, I; geo[gi(i)]->computeMassAndInertia(1.0, mm, I); m.segment<3>(3 * i) << mm, mm, I; }
  std::vector<std::unique_ptr<RigidBody2DForce>> forces; if (vc_bool("gravity")) forces.emplace_back(new NearEarthGravityForce{vc_vec2("g")});
  std::vector<RigidBody2DStaticPlane> planes; if (vc_bool("plane")) planes.emplace_back(Vector2s{0, -0.7}, vc_unit2("n"));
  std::vector<PlanarPortal> portals; if (!g_noPortals && vc_bool("portal")) portals.emplace_back(RigidBody2DStaticPlane{Vector2s{-3, 0}, Vector2s{1, 0}}, RigidBody2DStaticPlane{Vector2s{9, 0}, Vector2s{-1, 0}}, vc_bool("le") ? vc_real("pv") : 0.0, 2.0);
  RigidBody2DSim s; s.state() = RigidBody2DState{q, v, m, fixed, gi, geo, forces, planes, portals};
  return s;
}
static bool hadMap;
static void setUpMaps() { g_impact_map.reset(g_impact_operator ? new ImpactMap{vc_bool("warm") != 0} : nullptr); hadMap = g_impact_map != nullptr; }
static void scrambleMaps() { g_impact_map.reset(); }
static void checkMaps() { vc_assert((g_impact_map != nullptr) == hadMap, VC_SAME); }
#include "cli_body.h"
