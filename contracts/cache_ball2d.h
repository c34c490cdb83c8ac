#include "cache.h"
#include "ball2d/ConstraintCache.h"
#include "ball2d/StaticGeometry/StaticPlane.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
#include "ball2d/Constraints/BallStaticDrumConstraint.h"
struct Mk {
  static const long kinds = 3; long only = -1; Mk(long o = -1) : only(o) {}
  bool small(long) const { return false; }
  StaticPlane p{Vector2s{0, 0}, Vector2s{0, 1}};
  VectorXs q = vc_vecx("q", 2 * (vc_native() ? 4L : 2147483001L));
  bool pair(long k) const { return k == 0; }
  bool distinct(long) const { return false; }
  std::unique_ptr<Constraint> make(long k, unsigned i, unsigned j)
  {
    if (k == 0) return std::unique_ptr<Constraint>{new BallBallConstraint{i, j, Vector2s{1, 0}, Vector2s{0, 0}, 1.0, 1.0, false}};
    if (k == 1) return std::unique_ptr<Constraint>{new StaticPlaneConstraint{i, 1.0, p, j}};
    return std::unique_ptr<Constraint>{new StaticDrumConstraint{i, q, 1.0, Vector2s{1, 0}, j}};
  }
};
