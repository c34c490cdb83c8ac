// NATIVEONLY .*
// TRIALS .* 300
#include "cli.h"
#define main scisim_main
#include "ball2dcli/ball2d_cli.cpp"
#undef main
#include "ball2d/SymplecticEulerMap.h"
#include "ball2d/VerletMap.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
static std::unique_ptr<UnconstrainedMap> makeMap() { if (vc_bool("verlet")) return std::unique_ptr<UnconstrainedMap>{new VerletMap}; return std::unique_ptr<UnconstrainedMap>{new SymplecticEulerMap}; }
static Ball2DSim makeSim()
{
  Ball2DSim s; const long n = vc_int("n", 0, 6);
  for (long i = 0; i < n; ++i) s.state().pushBallBack(vc_vec2("q"), vc_vec2("v"), vc_real_in("r", 0.2, 0.9), vc_real_in("m", 0.5, 3), vc_int("fixed", 0, 4) == 0);
  if (vc_bool("plane")) s.state().staticPlanes().emplace_back(Vector2s{0, -2}, vc_unit2("n"));
  if (vc_bool("drum")) s.state().staticDrums().emplace_back(Vector2s{0, 0}, 6.0);
  if (vc_bool("gravity")) s.state().forces().emplace_back(new Ball2DGravityForce{vc_vec2("g")});
  if (vc_bool("penalty")) s.state().forces().emplace_back(new PenaltyForce{vc_real_in("k", 1, 50), 2.5});
  if (vc_bool("portal")) s.state().planarPortals().emplace_back(StaticPlane{Vector2s{-6, 0}, Vector2s{1, 0}}, StaticPlane{Vector2s{6, 0}, Vector2s{-1, 0}}, vc_bool("le") ? vc_real("pv") : 0.0, 2.0);
  return s;
}
static bool hadMap;
static void setUpMaps() { g_impact_map.reset(g_impact_operator ? new ImpactMap{vc_bool("warm") != 0} : nullptr); hadMap = g_impact_map != nullptr; }
static void scrambleMaps() { g_impact_map.reset(); }
static void checkMaps() { vc_assert((g_impact_map != nullptr) == hadMap, VC_SAME); }
#include "cli_body.h"
