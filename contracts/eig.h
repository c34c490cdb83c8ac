#ifndef VC_EIG_H
#define VC_EIG_H
#include "vc.h"
#include "scisim/Math/MathDefines.h"
#include <Eigen/Geometry>
#include <utility>
#include <vector>
#include <memory>
#include <string>
inline Vector2s vc_vec2(const char* n) { Vector2s v; vc_fill(n, v.data(), 2); return v; }
inline Vector3s vc_vec3(const char* n) { Vector3s v; vc_fill(n, v.data(), 3); return v; }
inline Vector2s vc_unit2(const char* n) { Vector2s v; vc_unit(n, v.data(), 2); return v; }
inline Vector3s vc_unit3(const char* n) { Vector3s v; vc_unit(n, v.data(), 3); return v; }
inline VectorXs vc_vecx(const char* nm, long n) { VectorXs v(n); vc_fill(nm, v.data(), n); return v; }
inline void vc_eq2(const Vector2s& a, const Vector2s& b, const char* l) { vc_eq(a.x(), b.x(), l); vc_eq(a.y(), b.y(), l); }
inline void vc_eq3(const Vector3s& a, const Vector3s& b, const char* l) { vc_eq(a.x(), b.x(), l); vc_eq(a.y(), b.y(), l); vc_eq(a.z(), b.z(), l); }
inline scalar vc_cross2(const Vector2s& a, const Vector2s& b) { return a.x()*b.y() - a.y()*b.x(); }
// any rotation (unit quaternion, written out)
inline Matrix33sr vc_rot3(const char* n)
{
  double u[4]; vc_unit(n, u, 4); const double w = u[0], x = u[1], y = u[2], z = u[3];
  Matrix33sr R;
  R << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y), 2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x), 2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z;
  return R;
}
#endif
