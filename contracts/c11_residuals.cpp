// Residuals that stop the solvers, projections, and the matrix operators the solvers iterate.
// BOUND discConstrained 1 2
// BOUND minMap|fischerBurmeister|boundConstrained|objective|gradient|multiply|projection 2 3
// OPT forkint true
#include "eig.h"
#include "scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/FischerBurmeisterImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/NonNegativeProjection.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.h"
#include "scisim/Math/QPSolvers/SparseMatrixVectorOperators.h"
#include "scisim/Math/QPSolvers/ProjectionSolvers.h"
#include <cmath>
#define Z0 "residual is zero when the optimality conditions hold"
#define Z1 "residual is positive when an optimality condition is violated"
#define Z2 "residual is never negative"
#define ZT "the tolerance is the one it was given"
static const double E = 1.0e-3;
// violated beyond rounding (exact symbolically)
static bool pos(double x) { return vc_native() ? x > E : x > 0; }
static void verdict(double r, bool ok, bool bad) { vc_assert(r >= 0, Z2); if (ok) { vc_eq(r, 0, Z0); vc_cover("optimal"); } else if (bad) { vc_assert(vc_native() ? r > 1.0e-5 : r > 0, Z1); vc_cover("violated"); } }
template<class T> static void complementarity(const T& term)
{
  const int n = int(vc_size("n", 0, 4)); VectorXs x(n), y(n); bool ok = true, bad = false;
  for (int i = 0; i < n; ++i) { const int k = int(vc_choose("case", 3)); x(i) = k == 0 ? 0 : vc_real_in("x", -10, 10); y(i) = k == 1 ? 0 : vc_real_in("y", -10, 10);
    ok = ok && x(i) >= 0 && y(i) >= 0 && !(x(i) > 0 && y(i) > 0); bad = bad || pos(-x(i)) || pos(-y(i)) || (pos(x(i)) && pos(y(i))); }
  verdict(term(x, y), ok, bad);
}
VC(minMap) { complementarity(MinMapImpact()); }
VC(fischerBurmeister) { const double tol = vc_real_in("tol", 0, 1); const FischerBurmeisterImpact t(tol); vc_eq(t.tol(), tol, ZT); complementarity(t); }
// minimise g.b over |b_i| <= c_i : stationary iff g vanishes inside, and points outward-descent only at a bound
VC(boundConstrained)
{
  const int n = int(vc_size("n", 0, 3)); VectorXs b(n), g(n), c(n); bool ok = true, bad = false;
  for (int i = 0; i < n; ++i) { const int k = int(vc_choose("case", 4)); c(i) = k == 3 ? 0 : vc_real_in("c", 0, 10); b(i) = k == 0 ? c(i) : k == 1 ? -c(i) : vc_real_in("b", -12, 12); g(i) = vc_bool("g0") ? 0 : vc_real_in("g", -10, 10);
    const double s = c(i) - std::fabs(b(i)); const bool up = b(i) >= c(i), lo = b(i) <= -c(i);
    ok = ok && s >= 0 && (g(i) == 0 || (up && g(i) <= 0) || (lo && g(i) >= 0)); bad = bad || pos(-s) || (pos(s) && pos(std::fabs(g(i)))) || (!lo && s >= 0 && pos(b(i) + c(i)) && pos(g(i))) || (!up && s >= 0 && pos(c(i) - b(i)) && pos(-g(i))); }
  const double tol = vc_real_in("tol", 0, 1); const FischerBurmeisterBoundConstrained t(tol, c); vc_eq(t.tol(), tol, ZT); verdict(t(b, g), ok, bad);
}
// minimise g.b over the disc |b| <= c : stationary iff g vanishes inside, and is a non-positive multiple of b on the rim
VC(discConstrained)
{
  const int n = int(vc_size("n", 0, 2)); VectorXs b(2 * n), g(2 * n), c(n); bool ok = true, bad = false; double u[2];
  for (int i = 0; i < n; ++i) { const int k = int(vc_choose("case", 5)); vc_unit("dir", u, 2); double gt = 0, gn = 0, len = 0; // the point is len*u, the gradient gn*u + gt*perp(u)
    if (k == 0) { c(i) = len = vc_real_in("c", 0.1, 10); gn = vc_real_in("gn", -10, 0); }               // rim, pressed outward
    if (k == 1) { c(i) = vc_real_in("c", 0.1, 10); len = vc_native() ? c(i) * vc_real_in("f", 0, 0.9) : vc_real_in("l", 0, 10); vc_assume(len < c(i)); }    // inside, zero gradient
    if (k == 2) { c(i) = 0; gn = vc_real_in("gn", -10, 10); gt = vc_real_in("gt", -10, 10); }           // no friction available
    if (k == 3) { c(i) = len = vc_real_in("c", 0.1, 10); gn = vc_real_in("gn", 0.01, 10); gt = vc_bool("t0") ? 0 : vc_real_in("gt", -10, 10); bad = true; } // rim, but descent points inward
    if (k == 4) { c(i) = vc_real_in("c", 0, 10); len = vc_real_in("l", 0, 12); gn = vc_real_in("gn", -10, 10); gt = vc_real_in("gt", -10, 10); bad = bad || pos(len - c(i)) || (pos(c(i) - len) && (pos(std::fabs(gn)) || pos(std::fabs(gt)))) || (pos(len) && pos(c(i)) && pos(std::fabs(gt)));  }
    ok = ok && k < 3; if (vc_native() && (k == 0 || k == 3)) c(i) = len * (1 - 1.0e-12); // on the rim whatever the rounding of the norm
    b(2 * i) = len * u[0]; b(2 * i + 1) = len * u[1]; g(2 * i) = gn * u[0] - gt * u[1]; g(2 * i + 1) = gn * u[1] + gt * u[0]; }
  const double tol = vc_real_in("tol", 0, 1); const FischerBurmeisterSmooth t(tol, c); vc_eq(t.tol(), tol, ZT); verdict(t(b, g), ok && !bad, bad);
}
VC(projection)
{
  const long n = vc_size("n", 0, 1000000); VectorXs x = vc_vecx("x", n); const VectorXs y = x; NonNegativeProjection()(x); vc_eqi(x.size(), n, "projection keeps the size"); if (n == 0) return;
  const long i = vc_int("i", 0, n - 1); vc_assert(x(i) >= 0, "projected point is feasible"); if (y(i) >= 0) vc_eq(x(i), y(i), "feasible coordinates are unchanged"); else vc_eq(x(i), 0, "infeasible coordinates move to the nearest feasible value"); vc_cover("done");
}
struct Sym { int n; MatrixXXsc A; SparseMatrixsc S; VectorXs b, x; Sym() : n(int(vc_size("n", 1, 3))), A(n, n), b(vc_vecx("b", n)), x(vc_vecx("x", n)) { vc_fill("A", A.data(), n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A(i, j) = A(j, i); S.resize(n, n); for (int c = 0; c < n; ++c) { S.startVec(c); for (int r = 0; r < n; ++r) S.insertBack(r, c) = A(r, c); } S.finalize(); }
  scalar Ax(int i) const { scalar s = 0; for (int j = 0; j < n; ++j) s += A(i, j) * x(j); return s; } };
VC(objective) { const Sym s; scalar e = 0; for (int i = 0; i < s.n; ++i) e += 0.5 * s.x(i) * s.Ax(i) + s.b(i) * s.x(i); vc_eq(ObjectiveEigenColumnMajor()(s.S, s.b, s.x), e, "objective is x^T A x / 2 + b^T x"); vc_cover("done"); }
VC(gradient) { const Sym s; VectorXs g = vc_vecx("g", s.n); GradientEigenColumnMajor()(s.S, s.b, s.x, g); vc_eqi(g.size(), s.n, "gradient size"); for (int i = 0; i < s.n; ++i) vc_eq(g(i), s.Ax(i) + s.b(i), "gradient is A x + b"); vc_cover("done"); }
VC(multiply) { const Sym s; VectorXs g = vc_vecx("g", s.n); MultiplyEigenColumnMajor()(s.S, s.x, g); vc_eqi(g.size(), s.n, "product size"); for (int i = 0; i < s.n; ++i) vc_eq(g(i), s.Ax(i), "product is A x"); vc_cover("done"); }
VC(theta) { const scalar t0 = vc_real_in("t0", 0, 1); vc_assume(t0 > 0.001); const scalar t1 = ProjectionSolvers::computeNewTheta(t0); vc_assert((t1 > 0) & (t1 <= 1), "momentum parameter stays in (0,1]"); vc_eq(t1 * t1, (1 - t1) * t0 * t0, "momentum parameter solves t1^2 = (1-t1) t0^2"); vc_eq(ProjectionSolvers::computeNewBeta(t0, t1) * (t0 * t0 + t1), t0 * (1 - t0), "momentum weight is t0 (1-t0) / (t0^2 + t1)"); vc_cover("done"); }
