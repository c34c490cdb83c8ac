// The quadratic programs handed to the external QL solver (ql_ is not part of the repository: assumed contract), and what is done with its answer.
// BOUND .* 2 3
// OPT forkint true
// SRC: scisim/Math/QL/QLUtilities.cpp
#include "imp.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/LinearMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperatorUtilities.h"
#include "scisim/Math/QL/QLUtilities.h"
#include <limits>
#define QC "the quadratic term is the one of the problem"
#define QD_ "the linear term is the one of the problem"
#define QB "the bounds are those of the problem"
#define QA "the linear constraints are those of the problem"
#define QS "the solver is called with consistent sizes and sufficient work space"
#define QX "the answer is the solver's"
// expected problem and the answer to give
struct Expect { int n, m; MatrixXXsc C, A; VectorXs c, b, lo, hi, x, u; bool inf; scalar tol; int calls; };
static Expect* ex = nullptr;
extern "C" void ql_(int* m, int* me, int* mmax, int* n, int* nmax, int* mnn, double* c, double* d, double* a, double* b, double* xl, double* xu, double* x, double* u, double* eps, int* mode, int* iout, int* ifail, int* iprint, double* war, int* lwar, int* iwar, int* liwar)
{
  Expect& e = *ex; ++e.calls; vc_eqi(*m, e.m, QS); vc_eqi(*me, 0, QS); vc_assert(*mmax >= *m, QS); vc_eqi(*n, e.n, QS); vc_assert(*nmax >= *n, QS); vc_eqi(*mnn, e.m + 2 * e.n, QS); vc_assert(*lwar >= 3 * *nmax * *nmax / 2 + 10 * *nmax + *mmax + *m + 1, QS); vc_assert(*liwar >= *n, QS); vc_eqi(*mode, 1, QS); vc_eq(*eps, e.tol, "the tolerance is the one it was given");
  for (int i = 0; i < e.n; ++i) { for (int j = 0; j < e.n; ++j) vc_eq(c[i + j * *nmax], e.C(i, j), QC); vc_eq(d[i], e.c(i), QD_); if (e.inf) { vc_eq(xl[i], 0, QB); vc_assert(xu[i] == std::numeric_limits<double>::infinity(), QB); } else { vc_eq(xl[i], e.lo(i), QB); vc_eq(xu[i], e.hi(i), QB); } }
  for (int k = 0; k < e.m; ++k) { vc_eq(b[k], e.b(k), QA); for (int i = 0; i < e.n; ++i) vc_eq(a[k + i * *mmax], e.A(k, i), QA); }
  for (int i = 0; i < e.n; ++i) x[i] = e.x(i); for (int i = 0; i < *mnn; ++i) u[i] = e.u(i); war[0] = 0; war[*lwar - 1] = 0; iwar[0] = 0; iwar[*liwar - 1] = 0; *ifail = 0;
}
static MatrixXXsc anyQ(int n) { MatrixXXsc A(n, n); vc_fill("Q", A.data(), n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A(i, j) = A(j, i); return A; }
VC(lcpQl)
{
  Prob p(2, int(vc_size("nc", 1, 3))); Expect e; ex = &e; e.calls = 0; e.n = p.nc; e.m = 0; e.inf = true; e.tol = vc_real_in("eps", 0, 1); e.C = anyQ(p.nc); e.c.resize(p.nc); const VectorXs vF = vc_vecx("v0F", p.nv); for (int i = 0; i < p.nc; ++i) { p.cor(i) = vc_real_in("CoRi", 0, 1); e.c(i) = p.ndot(i, vF) + p.cor(i) * p.ndot(i, p.v0); } e.x = vc_vecx("x", p.nc); e.u = vc_vecx("u", 2 * p.nc);
  const SparseMatrixsc Q = vc_dense(e.C); VectorXs alpha = vc_vecx("alpha0", p.nc); const Cons cons; LCPOperatorQL op(e.tol); op.flow(cons, p.M, p.Minv, p.q0, p.v0, vF, p.N, Q, p.nrel, p.cor, alpha); vc_eqi(e.calls, 1, QX); vc_eqi(alpha.size(), p.nc, QX); for (int i = 0; i < p.nc; ++i) vc_eq(alpha(i), e.x(i), QX); vc_cover("done");
}
VC(boundQl)
{
  Prob p(2, int(vc_size("nc", 1, 3))); Expect e; ex = &e; e.calls = 0; e.n = p.nc; e.m = 0; e.inf = false; e.tol = vc_real_in("eps", 0.001, 1); e.C = anyQ(p.nc); e.c.resize(p.nc); e.lo.resize(p.nc); e.hi.resize(p.nc); VectorXs mu(p.nc), al(p.nc); for (int i = 0; i < p.nc; ++i) { mu(i) = vc_real_in("mu", 0, 2); al(i) = vc_real_in("al", 0, 10); e.c(i) = p.ndot(i, p.v0); e.lo(i) = -mu(i) * al(i); e.hi(i) = mu(i) * al(i); }
  e.x = vc_vecx("x", p.nc); e.u = VectorXs(2 * p.nc); for (int i = 0; i < 2 * p.nc; ++i) e.u(i) = vc_real_in("u", 0, 5); const SparseMatrixsc Q = vc_dense(e.C); VectorXs beta = vc_vecx("b0", p.nc), lambda = vc_vecx("l0", p.nc); BoundConstrainedMDPOperatorQL op(e.tol); op.flow(vc_real("t"), p.Minv, p.v0, p.N, Q, p.nrel, mu, al, beta, lambda);
  vc_eqi(e.calls, 1, QX); vc_eqi(beta.size(), p.nc, QX); vc_eqi(lambda.size(), p.nc, QX); for (int i = 0; i < p.nc; ++i) { vc_eq(beta(i), e.x(i), QX); vc_eq(lambda(i), e.u(i) > e.u(p.nc + i) ? e.u(i) : e.u(p.nc + i), "the multiplier is that of the active bound"); } vc_eqi(op.numFrictionImpulsesPerNormal(), 1, "one impulse per contact"); vc_cover("done");
}
VC(linearQl)
{
  const int s = 2, k = int(vc_size("contacts", 1, 2)); Prob p(2, s * k); Expect e; ex = &e; e.calls = 0; e.n = s * k; e.m = k; e.inf = true; e.tol = vc_real_in("eps", 0, 1); e.C = anyQ(s * k); e.c.resize(s * k); for (int i = 0; i < s * k; ++i) e.c(i) = p.ndot(i, p.v0); VectorXs mu(k), al(k); e.b.resize(k); e.A.resize(k, s * k); for (int c = 0; c < k; ++c) { mu(c) = vc_real_in("mu", 0, 2); al(c) = vc_real_in("al", 0, 10); e.b(c) = mu(c) * al(c); for (int i = 0; i < s * k; ++i) e.A(c, i) = i / s == c ? -1 : 0; }
  e.x = vc_vecx("x", s * k); e.u = vc_vecx("u", k + 2 * s * k); const SparseMatrixsc Q = vc_dense(e.C); VectorXs beta = vc_vecx("b0", s * k), lambda = vc_vecx("l0", k); LinearMDPOperatorQL op(s, e.tol); op.flow(vc_real("t"), p.Minv, p.v0, p.N, Q, p.nrel, mu, al, beta, lambda);
  vc_eqi(e.calls, 1, QX); vc_eqi(beta.size(), s * k, QX); vc_eqi(lambda.size(), k, QX); for (int i = 0; i < s * k; ++i) vc_eq(beta(i), e.x(i), QX); for (int c = 0; c < k; ++c) vc_eq(lambda(c), e.u(c), "the multiplier is that of the disc constraint"); vc_eqi(op.numFrictionImpulsesPerNormal(), s, "one impulse per disc sample"); vc_cover("done");
}
