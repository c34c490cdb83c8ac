// The projected gradient solver against the contracts of its operators, and the LCP operator built on it.
// BOUND apgd 2 3
// OPT forkint true
// NATIVEONLY apgdSolves lcpOperator
#include "imp.h"
#include "scisim/Math/QPSolvers/ProjectionSolvers.h"
#include "scisim/Math/QPSolvers/SparseMatrixVectorOperators.h"
#include "scisim/ConstrainedMaps/ImpactMaps/NonNegativeProjection.h"
#include "scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include <cmath>
#define AB "the returned point is the tested iterate with the smallest residual"
#define AS "success is reported exactly when the smallest residual is within the tolerance, and that residual is reported"
#define AF "every tested iterate has been projected"
#define AN "the number of iterations does not exceed the maximum"
#define AP "the returned point has the size of the problem and is feasible"
struct Ghost { int n; VectorXs last, best; scalar r = 0; int tests = 0, back = 0; };
// the projection is abstract: it returns some feasible point (x >= 0)
struct AnyProject { Ghost* g; void operator()(VectorXs& x) const { for (int i = 0; i < x.size(); ++i) { const scalar y = vc_real_in("proj", 0, 100); x(i) = y; } g->last = x; } };
struct AnyTerm { Ghost* g; scalar operator()(const VectorXs& x, const VectorXs& y) const { for (int i = 0; i < g->n; ++i) { vc_eq(x(i), g->last(i), AF); } const scalar r = vc_real_in("residual", 0, 100); if (g->tests == 0 || r < g->r) { g->r = r; g->best = x; } ++g->tests; return r; } };
struct AnyObj { Ghost* g; static constexpr bool columnMajor() { return true; } scalar operator()(const SparseMatrixsc&, const VectorXs&, const VectorXs&) const { vc_assume(g->back < 4); ++g->back; return vc_real_in("obj", -100, 100); } };
struct AnyGrad { static constexpr bool columnMajor() { return true; } void operator()(const SparseMatrixsc&, const VectorXs&, const VectorXs& x, VectorXs& g) const { for (int i = 0; i < x.size(); ++i) g(i) = vc_real_in("grad", -10, 10); } };
struct AnyMult { static constexpr bool columnMajor() { return true; } void operator()(const SparseMatrixsc&, const VectorXs& x, VectorXs& y) const { for (int i = 0; i < x.size(); ++i) y(i) = vc_real_in("prod", -10, 10); } };
VC(apgd)
{
  Ghost g; g.n = 1; const unsigned iters = unsigned(vc_choose("iters", 3)); const scalar tol = vc_real_in("tol", 0, 10); VectorXs x = vc_vecx("x0", g.n); const VectorXs b = vc_vecx("b", g.n); SparseMatrixsc A(g.n, g.n); ProjectionSolveResults res;
  ProjectionSolvers::APGD(AnyProject{&g}, AnyTerm{&g}, AnyObj{&g}, AnyGrad{}, AnyMult{}, tol, iters, A, b, x, res);
  vc_eqi(x.size(), g.n, AP); for (int i = 0; i < g.n; ++i) vc_assert(x(i) >= 0, AP); vc_assert(res.num_iterations <= iters, AN);
  vc_eqi(res.status == ProjectionSolveStatus::Success, g.tests > 0 && g.r <= tol, AS);
  if (g.tests > 0) { for (int i = 0; i < g.n; ++i) vc_eq(x(i), g.best(i), AB); vc_eq(res.achieved_tolerance, g.r, AS); vc_cover("iterated"); } else vc_cover("no iterations");
}
static MatrixXXsc spd(int n, bool singular) { MatrixXXsc B(n, n); vc_fill("B", B.data(), n * n); for (int i = 0; i < n * n; ++i) vc_assume(std::fabs(B.data()[i]) < 3); MatrixXXsc A = B * B.transpose(); for (int i = 0; i < n; ++i) A(i, i) += 0.2; return A; }
VC(apgdSolves)
{
  const int n = int(vc_int("n", 1, 4)); const MatrixXXsc A = spd(n, false); const SparseMatrixsc S = A.sparseView(); VectorXs b(n), x(n); const bool ones = vc_bool("ones"); for (int i = 0; i < n; ++i) { b(i) = vc_real_in("bi", -5, 5); x(i) = ones ? 1.0 : vc_real_in("xi", -5, 5); } ProjectionSolveResults r; const unsigned it = vc_bool("none") ? 0u : 200000u; const scalar tol = 1.0e-5;
  ProjectionSolvers::APGD(NonNegativeProjection{}, MinMapImpact{}, ObjectiveEigenColumnMajor{}, GradientEigenColumnMajor{}, MultiplyEigenColumnMajor{}, tol, it, S, b, x, r);
  vc_eqi(x.size(), n, AP); for (int i = 0; i < n; ++i) vc_assert(x(i) >= 0, AP); scalar e = 0; const VectorXs g = A * x + b; for (int i = 0; i < n; ++i) e = std::max(e, std::fabs(std::min(x(i), g(i))));
  if (it > 0) { vc_eqi(r.status == ProjectionSolveStatus::Success, 1, "the solver converges on well-conditioned problems"); vc_assert(e <= tol + 1.0e-12, AS); }
}
VC(lcpOperator)
{
  Prob p(3, int(vc_int("nc", 1, 3))); MatrixXXsc W = spd(3, false); for (int i = 0; i < 3; ++i) { for (int c = 0; c < p.nc; ++c) vc_assume(std::fabs(p.G(i, c)) < 3); vc_assume(std::fabs(p.v0(i)) < 10); } for (int c = 0; c < p.nc; ++c) vc_assume(std::fabs(p.nrel(c)) < 10);
  p.W = W; p.Minv = vc_dense(W); SparseMatrixsc Q = p.N.transpose() * p.Minv * p.N; MatrixXXsc Qd = Q; vc_assume(Qd.determinant() > 0.1); VectorXs alpha(p.nc); for (int c = 0; c < p.nc; ++c) alpha(c) = vc_bool("one") ? 1 : vc_real_in("a0", 0, 3); const Cons cons; LCPOperatorAPGD op(1.0e-5, 200000u); op.flow(cons, p.M, p.Minv, p.q0, p.v0, p.v0, p.N, Q, p.nrel, p.cor, alpha);
  vc_eqi(alpha.size(), p.nc, AP); const VectorXs v1 = p.v0 + W * p.G * alpha; for (int c = 0; c < p.nc; ++c) { vc_assert(alpha(c) >= 0, AP); const scalar s = p.ndot(c, v1) + p.cor(c) * p.ndot(c, p.v0); vc_assert(s >= -2.0e-5, "Newton's restitution inequality holds at every contact"); vc_assert(alpha(c) * s <= 1.0e-3, "an impulse acts only where the restitution law is met with equality"); }
}
