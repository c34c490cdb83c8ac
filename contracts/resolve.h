// contract of resolveImpact for the contacts that implement it
#ifndef VC_RESOLVE_H
#define VC_RESOLVE_H
#define RL "normal relative velocity after the impact is -CoR times the one before"
#define RI "impulse is non-negative"
#define RG "the impulse acts along the contact gradient, scaled by the inverse masses"
#define RF_ "velocities of all other degrees of freedom are unchanged"
#define RE "kinetic energy (relative to the surface) changes by -(1-CoR^2)/2 mu u^2 <= 0"
// a mass matrix of any size whose first `vals` values are arbitrary positive; the system's layout is the caller's
inline SparseMatrixsc vc_massMatrix(long rows, long vals)
{
  SparseMatrixsc M; M.resize(rows, rows); M.resizeNonZeros(vals); vc_fill_pos("M", M.valuePtr(), vals);
  if (vc_native()) { long c = 0; for (long i = 0; i < rows; ++i) { M.outerIndexPtr()[i] = int(c); if (vals == rows || i < rows / 2) M.innerIndexPtr()[c++] = int(i); else { const long b = rows / 2 + (i - rows / 2) / 3 * 3; for (int k = 0; k < 3; ++k) M.innerIndexPtr()[c++] = int(b + k); } } M.outerIndexPtr()[rows] = int(c); }
  return M;
}
template<class L, class C> void resolveImpact(Contact<L, C>& k, bool block)
{
  const Constraint& c = k.c; const long N = L::V * k.n; SparseMatrixsc M = vc_massMatrix(N, block ? 2 * N : N);
  const long st = L::D; double m[2] = {0, 0}; // translational mass of body b sits at st*b .. st*b+D-1
  for (int b = 0; b < 2; ++b) { const long id = b ? k.b1 : k.b0; if (id < 0) continue; m[b] = vc_pos(b ? "m1" : "m0"); for (int d = 0; d < L::D; ++d) M.valuePtr()[st * id + d] = m[b]; }
  const scalar u = c.evalNdotV(k.q, k.v), CoR = vc_real_in("CoR", 0, 1); vc_assume(u < 0); VectorXs w = k.v; scalar alpha = vc_real("alpha0"); c.resolveImpact(CoR, M, u, w, alpha);
  vc_eqi(w.size(), N, RF_); vc_eq(c.evalNdotV(k.q, w), -CoR * u, RL); vc_assert(alpha >= 0, RI);
  double dE = 0, s[3] = {0, 0, 0}; if (k.b1 < 0) for (int d = 0; d < L::D; ++d) s[d] = k.kin[d];
  for (int b = 0; b < 2; ++b) { const long id = b ? k.b1 : k.b0; if (id < 0) continue;
    for (int d = 0; d < L::D; ++d) { const double a = k.v(L::idx(k.n, id, d)), e = w(L::idx(k.n, id, d)); vc_eq(m[b] * (e - a), (b ? -1 : 1) * alpha * k.nrm[d], RG); dE += 0.5 * m[b] * ((e - s[d]) * (e - s[d]) - (a - s[d]) * (a - s[d])); } }
  const double mu = k.b1 < 0 ? m[0] : m[0] * m[1] / (m[0] + m[1]); vc_eq(dE, -0.5 * (1 - CoR * CoR) * mu * u * u, RE);
  const long g = vc_int("g", 0, N - 1); bool touched = false; for (int d = 0; d < L::D; ++d) touched = touched | (g == L::idx(k.n, k.b0, d)) | (k.b1 >= 0 && g == L::idx(k.n, k.b1, d));
  vc_assume(!touched); vc_eq(w(g), k.v(g), RF_);
  vc_cover("resolved");
}
#endif
