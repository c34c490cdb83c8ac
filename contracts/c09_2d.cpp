// Masses and inertias of 2D shapes; mass matrices of Ball2D and RigidBody2D systems.
#include "st_rb2d.h"
// BOUND matrices 3 4
#define MI "mass and inertia equal the closed form"
#define MM "mass matrix carries the masses in dof order and is inverse to the inverse mass matrix"
VC(circle)
{
  const scalar r = vc_pos("r"), rho = vc_pos("rho"); scalar m, I; CircleGeometry{r}.computeMassAndInertia(rho, m, I);
  vc_eq(m, rho * 3.14159265358979323846 * r * r, MI); vc_eq(I, rho * 3.14159265358979323846 * r * r * r * r / 2, MI); vc_assert(m > 0 && I > 0, "mass and inertia are positive"); vc_cover("done");
}
VC(box)
{
  const scalar a = vc_pos("a"), b = vc_pos("b"), rho = vc_pos("rho"); scalar m, I; BoxGeometry{Vector2s{a, b}}.computeMassAndInertia(rho, m, I);
  // integral of rho * (x^2 + y^2) over [-a,a] x [-b,b]
  vc_eq(m, rho * 4 * a * b, MI); vc_eq(I, rho * (4 * a * a * a * b / 3 + 4 * a * b * b * b / 3), MI); vc_assert(m > 0 && I > 0, "mass and inertia are positive"); vc_cover("done");
}
VC(matrices)
{
  const long n = vc_size("n", 0, 8); const Rb2d s = makeBodies2d(n, 1); const RigidBody2DState a = s.state();
  vc_eqi(a.M().rows(), 3 * n, MM); vc_eqi(a.M().nonZeros(), 3 * n, MM); vc_eqi(a.Minv().rows(), 3 * n, MM); vc_eqi(a.Minv().nonZeros(), 3 * n, MM);
  for (long i = 0; i < 3 * n; ++i) {
    vc_eqi(a.M().innerIndexPtr()[i], i, MM); vc_eqi(a.Minv().innerIndexPtr()[i], i, MM); vc_eqi(a.M().outerIndexPtr()[i], i, MM); vc_eqi(a.Minv().outerIndexPtr()[i], i, MM);
    vc_eq(a.M().valuePtr()[i], s.m(i), MM); vc_eq(a.M().valuePtr()[i] * a.Minv().valuePtr()[i], 1.0, MM); vc_assert(a.M().valuePtr()[i] > 0 && a.Minv().valuePtr()[i] > 0, "masses are positive");
  }
  for (long i = 0; i < n; ++i) { vc_eq(a.m(unsigned(i)), s.m(3 * i), MM); vc_eq(a.I(unsigned(i)), s.m(3 * i + 2), MM); }
  vc_cover("done");
}
