// Friction solvers built from an impact operator and a friction operator
// BOUND .* 1 2
// OPT forkint true
#include "c17.h"
#define SN "the impact operator receives the contacts' normals, quadratic term, kinematic velocities and restitution, the start velocity, and the velocity with the current friction impulses applied"
#define SF "the friction operator receives the velocity with the current impact impulses applied, the contacts' tangents, quadratic term, kinematic velocities, friction coefficients and the normal impulses"
#define SV "the returned velocity is the start velocity changed by M^-1 of exactly the returned impulses"
#define SB "the friction impulses returned are those of the iterate with the least error (the first within the tolerance), and f is their generalised impulse"
#define SE "the error reported is that of the impulses returned, and success means it is within the tolerance"
#define SW "operators start from the previous impulses when warm started and from zero otherwise"
struct Ops17 { W17& w; std::vector<VectorXs> A, B; size_t ia = 0, ib = 0; bool wa = false, wb = false; VectorXs la, lb, f; Ops17(W17& w_, int n) : w(w_), la(VectorXs::Zero(w_.nc)), lb(VectorXs::Zero(w_.nc)), f(VectorXs::Zero(NV)) { for (int i = 0; i < n; ++i) { A.push_back(vc_vecx("A", w_.nc)); B.push_back(vc_vecx("B", w_.nc)); } } };
static void matrix(const SparseMatrixsc& S, const MatrixXXsc& G, const SparseMatrixsc& Q, const W17& w, const char* what) { vc_eqi(S.rows(), NV, what); vc_eqi(S.cols(), w.nc, what); vc_eqi(Q.rows(), w.nc, what); vc_eqi(Q.cols(), w.nc, what); const MatrixXXsc Sd = S, Qd = Q; for (int c = 0; c < w.nc; ++c) { for (int d = 0; d < NV; ++d) vc_eq(Sd(d, c), G(d, c), what); for (int e = 0; e < w.nc; ++e) { scalar t = 0; for (int d = 0; d < NV; ++d) t += G(d, c) * G(d, e) / w.s.m(d); vc_eq(Qd(c, e), t, what); } } }
static scalar genImp(const MatrixXXsc& G, const VectorXs& a, int d) { scalar t = 0; for (int c = 0; c < a.size(); ++c) t += G(d, c) * a(c); return t; }
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.h"
struct Imp17 final : public ImpactOperator {
  Ops17& o; Imp17(Ops17& o_) : o(o_) {}
  virtual void flow(const Cons& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha) override {
    W17& w = o.w; vc_assert((&M == &w.s.Mm) & (&Minv == &w.s.Mi), SN); vc_eqi(long(cons.size()), w.nc, SN); vc_eqi(nrel.size(), w.nc, SN); vc_eqi(CoR.size(), w.nc, SN); matrix(N, w.G, Q, w, SN); for (int d = 0; d < NV; ++d) { vc_eq(q0(d), w.q0(d), SN); vc_eq(v0(d), w.v0(d), SN); vc_eq(v0F(d), w.v0(d) + o.f(d) / w.s.m(d), SN); }
    for (int c = 0; c < w.nc; ++c) { vc_eq(nrel(c), -(w.nrel(c) * w.bases(0, 2 * c) + w.drel(c) * w.bases(1, 2 * c)), SN); vc_eq(CoR(c), w.scor(c), SN); vc_eq(alpha(c), o.wa ? o.la(c) : 0.0, SW); } vc_assert(o.ia < o.A.size(), SN); alpha = o.la = o.A[o.ia++]; }
  virtual std::string name() const override { return "any"; } virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>(new Imp17(o)); } virtual void serialize(std::ostream&) const override {}
};
struct Fric17 final : public FrictionOperator {
  Ops17& o; Fric17(Ops17& o_) : o(o_) {}
  virtual void flow(const scalar& t, const SparseMatrixsc& Minv, const VectorXs& v0, const SparseMatrixsc& D, const SparseMatrixsc& Q, const VectorXs& gdotD, const VectorXs& mu, const VectorXs& alpha, VectorXs& beta, VectorXs&) override {
    W17& w = o.w; vc_eq(t, double(w.it) * w.dt, SF); vc_assert(&Minv == &w.s.Mi, SF); matrix(D, w.H, Q, w, SF); vc_eqi(gdotD.size(), w.nc, SF); vc_eqi(mu.size(), w.nc, SF); for (int d = 0; d < NV; ++d) vc_eq(v0(d), w.v0(d) + genImp(w.G, o.la, d) / w.s.m(d), SF);
    for (int c = 0; c < w.nc; ++c) { vc_eq(gdotD(c), -(w.nrel(c) * w.bases(0, 2 * c + 1) + w.drel(c) * w.bases(1, 2 * c + 1)), SF); vc_eq(mu(c), w.smu(c), SF); vc_eq(alpha(c), o.la(c), SF); vc_eq(beta(c), o.wb ? o.lb(c) : 0.0, SW); } vc_assert(o.ib < o.B.size(), SF); beta = o.lb = o.B[o.ib++]; for (int d = 0; d < NV; ++d) o.f(d) = genImp(w.H, o.lb, d); }
  virtual int numFrictionImpulsesPerNormal() const override { return 1; } virtual bool isLinearized() const override { return false; }
  virtual std::string name() const override { return "any"; } virtual std::unique_ptr<FrictionOperator> clone() const override { return std::unique_ptr<FrictionOperator>(new Fric17(o)); } virtual void serialize(std::ostream&) const override {}
};
// the error measure is an external function of the contact forces (so-bogus): any value per evaluation, recorded together with the forces it was given
static std::vector<scalar> g_err; static std::vector<VectorXs> g_force; static size_t g_evals;
#define SOBOGUS_H
enum class SobogusSolverType { Balls2D, RigidBody2D, RigidBodies3D };
class SobogusFrictionProblem { public: explicit SobogusFrictionProblem(const SobogusSolverType&) {} void flattenMass(const SparseMatrixsc&, VectorXs&) {} void initialize(const Cons&, const MatrixXXsc&, VectorXs&, const VectorXs&, const VectorXs&, const VectorXs&, const VectorXs&, const VectorXs&, const VectorXs&) {}
  scalar computeError(const VectorXs& r) { g_force.push_back(r); vc_assert(g_evals < g_err.size(), "one error evaluation per iterate"); return g_err[g_evals++]; } };
#include "scisim/ConstrainedMaps/StaggeredProjections.cpp"
#define SR "the error is measured on the contact forces alpha n + beta t of the iterate"
VC(staggered)
{
  const int nc = int(vc_size("nc", 1, 2)); W17 w(nc, true); const unsigned iters = unsigned(vc_choose("iters", 3)) + 1; Ops17 o(w, int(iters) + 1); o.wa = vc_choose("warmAlpha", 2) != 0; o.wb = vc_choose("warmBeta", 2) != 0; g_err.clear(); g_force.clear(); g_evals = 0; for (unsigned i = 0; i <= iters; ++i) g_err.push_back(vc_real_in("err", 0, 2));
  VectorXs f = w.f, alpha = w.sa, beta = w.sb, v(NV); o.la = w.sa; o.lb = w.sb; o.f = w.f; Cons K; for (int i = 0; i < nc; ++i) K.emplace_back(new Con17(w, i)); bool ok = false; scalar err = -1; Fric17 fo(o);
  unsigned last = 0, best = 0; // the iterate whose friction is used
  for (; last < iters; ++last) { if (g_err[last] < g_err[best]) best = last; if (g_err[last] <= w.tol) { best = last; break; } } const unsigned done = last < iters ? last + 1 : iters;
  // before the final impact solve the operators see the best iterate
  struct Fin { static void go(Ops17& o_, const W17& w_, unsigned b) { o_.la = o_.A[b]; o_.lb = o_.B[b]; for (int d = 0; d < NV; ++d) o_.f(d) = genImp(w_.H, o_.lb, d); } };
  static Ops17* s_o; static const W17* s_w; static unsigned s_best, s_done; s_o = &o; s_w = &w; s_best = best; s_done = done;
  struct Imp final : public ImpactOperator { Ops17& o; Imp(Ops17& o_) : o(o_) {}
    virtual void flow(const Cons& c, const SparseMatrixsc& M, const SparseMatrixsc& Mi, const VectorXs& q, const VectorXs& v_, const VectorXs& vF, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nr, const VectorXs& CoR, VectorXs& a) override { if (o.ib == s_done) Fin::go(o, *s_w, s_best); Imp17(o).flow(c, M, Mi, q, v_, vF, N, Q, nr, CoR, a); }
    virtual std::string name() const override { return "any"; } virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>(new Imp(o)); } virtual void serialize(std::ostream&) const override {} };
  Imp im(o); StaggeredProjections sq(o.wa, o.wb, im, fo);
  sq.solve(w.it, w.dt, w.s, w.s.Mm, w.s.Mi, w.scor, w.smu, w.q0, w.v0, K, w.bases, VectorXs(0), VectorXs(0), iters, w.tol, f, alpha, beta, v, ok, err);
  vc_eqi(long(o.ib), done, SB); vc_eqi(long(o.ia), done + 1, SB); vc_eqi(long(g_evals), done + 1, SE); vc_eqi(v.size(), NV, SV); vc_eqi(alpha.size(), nc, SV); vc_eqi(beta.size(), nc, SB);
  for (int c = 0; c < nc; ++c) { vc_eq(alpha(c), o.A[done](c), SV); vc_eq(beta(c), o.B[best](c), SB); for (unsigned i = 0; i <= done; ++i) for (int d = 0; d < 2; ++d) vc_eq(g_force[i](2 * c + d), o.A[i](c) * w.bases(d, 2 * c) + o.B[i < done ? i : best](c) * w.bases(d, 2 * c + 1), SR); }
  for (int d = 0; d < NV; ++d) { vc_eq(f(d), genImp(w.H, o.B[best], d), SB); vc_eq(v(d), w.v0(d) + (genImp(w.G, o.A[done], d) + genImp(w.H, o.B[best], d)) / w.s.m(d), SV); } vc_eq(err, g_err[done], SE); vc_assert(ok == (g_err[done] <= w.tol), SE); vc_cover("done");
}
