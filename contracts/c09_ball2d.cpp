// Mass matrices of a Ball2D system.
#include "eig.h"
#include "ball2d/Ball2DState.h"
// BOUND matrices 3 4
#define MM "mass matrix carries the masses in dof order and is inverse to the inverse mass matrix"
VC(matrices)
{
  const long n = vc_size("n", 0, 8); Ball2DState a; VectorXs m(2 * n); for (long i = 0; i < n; ++i) m(2 * i) = m(2 * i + 1) = vc_pos("m");
  if (vc_bool("reused")) { VectorXs o(4); o << 1, 1, 2, 2; a.setMass(o); }
  a.setMass(m);
  vc_eqi(a.M().rows(), 2 * n, MM); vc_eqi(a.M().cols(), 2 * n, MM); vc_eqi(a.M().nonZeros(), 2 * n, MM); vc_eqi(a.Minv().rows(), 2 * n, MM); vc_eqi(a.Minv().cols(), 2 * n, MM); vc_eqi(a.Minv().nonZeros(), 2 * n, MM);
  for (long i = 0; i < 2 * n; ++i) {
    vc_eqi(a.M().innerIndexPtr()[i], i, MM); vc_eqi(a.Minv().innerIndexPtr()[i], i, MM); vc_eqi(a.M().outerIndexPtr()[i], i, MM); vc_eqi(a.Minv().outerIndexPtr()[i], i, MM);
    vc_eq(a.M().valuePtr()[i], m(i), MM); vc_eq(a.M().valuePtr()[i] * a.Minv().valuePtr()[i], 1.0, MM); vc_assert(a.M().valuePtr()[i] > 0 && a.Minv().valuePtr()[i] > 0, "masses are positive");
  }
  vc_cover("done");
}
