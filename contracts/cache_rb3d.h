#include "cache.h"
#include "rigidbody3d/ConstraintCache.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/Constraints/SphereSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticCylinderSphereConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectSphereConstraint.h"
struct Mk {
  static const long kinds = 4; long only = -1; Mk(long o = -1) : only(o) {}
  bool small(long) const { return false; }
  StaticPlane p{Vector3s{0, 0, 0}, Vector3s{0, 1, 0}};
  StaticCylinder c{Vector3s{0, 0, 0}, Vector3s{0, 1, 0}, 5.0};
  bool pair(long k) const { return k == 0; }
  bool distinct(long) const { return false; }
  std::unique_ptr<Constraint> make(long k, unsigned i, unsigned j)
  {
    if (k == 0) return std::unique_ptr<Constraint>{new SphereSphereConstraint{i, j, Vector3s{1, 0, 0}, Vector3s{0, 0, 0}, 1.0, 1.0}};
    if (k == 1) return std::unique_ptr<Constraint>{new StaticPlaneSphereConstraint{i, 1.0, p, j}};
    if (k == 2) return std::unique_ptr<Constraint>{new StaticCylinderSphereConstraint{i, 1.0, c, j}};
    return std::unique_ptr<Constraint>{new KinematicSphereSphereConstraint{i, 1.0, Vector3s{1, 0, 0}, j, Vector3s{0, 0, 0}, Vector3s{0, 0, 0}, Vector3s{0, 0, 0}, 1.0}};
  }
};
