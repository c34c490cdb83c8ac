// NATIVEONLY .*
// TRIALS .* 300
#include "cli.h"
#define main scisim_main
#include "rigidbody3dcli/rigidbody3d_cli.cpp"
#undef main
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
static std::unique_ptr<UnconstrainedMap> makeMap() { const long k = vc_choose("map", 3); if (k == 0) return std::unique_ptr<UnconstrainedMap>{new DMVMap}; if (k == 1) return std::unique_ptr<UnconstrainedMap>{new SplitHamMap}; return std::unique_ptr<UnconstrainedMap>{new ExponentialEulerMap}; }
static RigidBody3DSim makeSim()
{
  const long n = vc_int("n", 0, 4);
  std::vector<std::unique_ptr<RigidBodyGeometry>> geo; geo.emplace_back(new RigidBodySphere{0.5}); geo.emplace_back(new RigidBodySphere{0.3});
  std::vector<Vector3s> X, V, om, I0; std::vector<scalar> M; std::vector<VectorXs> R; std::vector<bool> fixed; std::vector<unsigned> gi;
  for (long i = 0; i < n; ++i) { X.emplace_back(1.1 * double(i) + vc_real_in("x", -0.2, 0.2), vc_real_in("y", -0.2, 0.2), vc_real_in("z", -0.2, 0.2)); V.push_back(vc_vec3("v")); om.push_back(vc_vec3("w")); M.push_back(vc_pos("m"));
    I0.emplace_back(vc_pos("i"), vc_pos("i"), vc_pos("i")); const Matrix33sr r = vc_rot3("r"); R.push_back(Eigen::Map<const VectorXs>(r.data(), 9)); fixed.push_back(vc_int("fixed", 0, 4) == 0); gi.push_back(vc_bool("small") ? 1u : 0u); }
  RigidBody3DSim s; s.state().setState(X, V, M, R, om, I0, fixed, gi, geo);
  if (vc_bool("gravity")) s.state().addForce(NearEarthGravityForce{vc_vec3("g")});
  if (vc_bool("plane")) s.state().addStaticPlane(StaticPlane{Vector3s{0, -0.6, 0}, vc_unit3("n")});
  return s;
}
static void setUpMaps() {}
static void scrambleMaps() {}
static void checkMaps() {}
#include "cli_body.h"
