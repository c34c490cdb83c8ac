#include "eig.h"
#include "rigidbody3d/Constraints/FrictionUtilities.h"
VC(orthogonalVector)
{
  const Vector3s n = vc_unit3("n"), t = FrictionUtilities::orthogonalVector(n);
  vc_cover("any unit normal");
  vc_eq(t.dot(t), 1.0, "orthogonal vector has unit length");
  vc_eq(t.dot(n), 0.0, "orthogonal vector is orthogonal to the normal");
}
VC(generateOrthogonalVectors)
{
  const Vector3s n = vc_unit3("n"), a = vc_vec3("a");
  Vector3s p = a - n.dot(a) * n; vc_assume(p.squaredNorm() > 1.0e-6);
  const long N = vc_choose("samples", 6);
  std::vector<Vector3s> f(N);
  FrictionUtilities::generateOrthogonalVectors(n, f, a);
  vc_cover("samples generated");
  vc_eqi(long(f.size()), N, "number of samples is kept");
  if (N > 0) {
    vc_eq(f[0].dot(n), 0.0, "first sample is orthogonal to the normal");
    vc_eq(f[0].cross(p).squaredNorm(), 0.0, "first sample is along the suggested tangent");
    vc_le(0.0, f[0].dot(p), "first sample points along the suggested tangent");
    vc_name("f0", f[0].data(), 3, 1);
  }
  for (long k = 1; k < N; ++k) {
    vc_eq(f[k].dot(f[k]), 1.0, "sample has unit length");
    vc_eq(f[k].dot(n), 0.0, "sample is orthogonal to the normal");
    const scalar th = 2.0 * PI<scalar> * scalar(k) / scalar(N);
    const Vector3s b = n.cross(f[0]);
    for (int d = 0; d < 3; ++d) vc_eq(f[k][d], std::cos(th) * f[0][d] + std::sin(th) * b[d], "k-th sample is the first one turned by 2 pi k / N about the normal");
  }
}
