#include "cache.h"
#include "rigidbody2d/ConstraintCache.h"
#include "rigidbody2d/RigidBody2DStaticPlane.h"
#include "rigidbody2d/CircleCircleConstraint.h"
#include "rigidbody2d/BodyBodyConstraint.h"
#include "rigidbody2d/KinematicObjectCircleConstraint.h"
#include "rigidbody2d/StaticPlaneCircleConstraint.h"
struct Mk {
  static const long kinds = 4; long only = -1; Mk(long o = -1) : only(o) {}
  bool small(long) const { return false; }
  RigidBody2DStaticPlane p{Vector2s{0, 0}, Vector2s{0, 1}};
  VectorXs q = vc_vecx("q", 3 * (vc_native() ? 4L : 2147483001L));
  bool pair(long k) const { return k == 0 || k == 1; }
  bool distinct(long k) const { return k == 2; }
  std::unique_ptr<Constraint> make(long k, unsigned i, unsigned j)
  {
    if (k == 0) return std::unique_ptr<Constraint>{new CircleCircleConstraint{i, j, Vector2s{1, 0}, Vector2s{0, 0}, 1.0, 1.0}};
    if (k == 1) return std::unique_ptr<Constraint>{new BodyBodyConstraint{i, j, Vector2s{0, 0}, Vector2s{1, 0}, q}};
    if (k == 2) return std::unique_ptr<Constraint>{new KinematicObjectCircleConstraint{i, 1.0, Vector2s{1, 0}, j, Vector2s{0, 0}, Vector2s{0, 0}, 0.0}};
    return std::unique_ptr<Constraint>{new StaticPlaneCircleConstraint{i, j, 1.0, p}};
  }
};
