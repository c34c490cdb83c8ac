// Impact operators and the LCP terms, each against the contracts of what it calls.
// BOUND .* 2 3
// OPT forkint true
#include "imp.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.h"
#include "contact.h"
#define GF "every contact is feasible (normal relative velocity >= -tolerance) after the operator"
#define GA "the returned impulses are the sum of the impulses of the individual responses"
#define GV "the velocity the operator leaves is v0 + Minv N alpha"
static void feasible(const Prob& p, const VectorXs& alpha) { const VectorXs v = p.vel(alpha); for (int c = 0; c < p.nc; ++c) vc_assert(p.ndot(c, v) >= -p.tol, GF); }
VC(gaussSeidel)
{
  Prob p(2, int(vc_size("nc", 1, 3))); Cons cons = vc_cons(p); const SparseMatrixsc Q = p.N.transpose() * p.Minv * p.N; VectorXs alpha = vc_vecx("alpha0", p.nc);
  GaussSeidelOperator op(p.tol); op.flow(cons, p.M, p.Minv, p.q0, p.v0, p.v0, p.N, Q, p.nrel, p.cor, alpha);
  vc_eqi(alpha.size(), p.nc, GA); for (int c = 0; c < p.nc; ++c) { vc_eq(alpha(c), p.sum(c), GA); vc_assert(alpha(c) >= 0, "impulses are non-negative"); } feasible(p, alpha); vc_cover(p.resolved ? "resolved" : "nothing to do");
}
#define RL "the sub-problem consists of exactly the violated contacts, in order"
#define RQ "the sub-problem has the quadratic term N_l^T Minv N_l"
#define RV "the sub-problem starts from the current velocity"
struct AnyOp final : public ImpactOperator { // an inner operator: returns arbitrary non-negative impulses for its sub-problem
  Prob& p; int calls = 0; AnyOp* up = nullptr; AnyOp(Prob& p_) : p(p_) {}
  virtual void flow(const Cons&, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha) override {
    vc_assume(p.resolved < p.maxres); ++p.resolved; const VectorXs v = p.vel(p.sum); int l = 0; int id[4];
    vc_assert(&M == &p.M, "the mass matrix is passed on"); vc_assert(&Minv == &p.Minv, "the inverse mass matrix is passed on"); for (int d = 0; d < p.nv; ++d) { vc_eq(q0(d), p.q0(d), RV); vc_eq(v0(d), v(d), RV); vc_eq(v0F(d), v(d), RV); }
    for (int c = 0; c < p.nc; ++c) if (p.ndot(c, v) < -p.tol) id[l++] = c;
    vc_eqi(N.cols(), l, RL); vc_eqi(N.rows(), p.nv, RL); vc_eqi(nrel.size(), l, RL); vc_eqi(CoR.size(), l, RL); vc_eqi(alpha.size(), l, RL); vc_eqi(Q.rows(), l, RQ); vc_eqi(Q.cols(), l, RQ); const MatrixXXsc Nd = N, Qd = Q;
    for (int i = 0; i < l; ++i) { vc_eq(nrel(i), p.nrel(id[i]), RL); vc_eq(CoR(i), p.cor(id[i]), RL); vc_eq(alpha(i), 0, "the sub-problem starts from zero impulses"); for (int d = 0; d < p.nv; ++d) vc_eq(Nd(d, i), p.G(d, id[i]), RL);
      for (int j = 0; j < l; ++j) { scalar s = 0; for (int d = 0; d < p.nv; ++d) for (int e = 0; e < p.nv; ++e) s += p.G(d, id[i]) * p.W(d, e) * p.G(e, id[j]); vc_eq(Qd(i, j), s, RQ); } }
    for (int i = 0; i < l; ++i) { const scalar a = vc_pos("alpha"); alpha(i) = a; p.sum(id[i]) += a; } }
  virtual std::string name() const override { return "any"; }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>(new AnyOp(p)); }
  virtual void serialize(std::ostream&) const override {}
};
VC(gr)
{
  Prob p(2, int(vc_size("nc", 1, 3))); Cons cons; SparseMatrixsc Q; VectorXs alpha = vc_vecx("alpha0", p.nc); p.maxres = vc_native() ? 3 : p.nc == 1 ? 2 : 1; AnyOp in(p); GROperator op(p.tol, in); op.flow(cons, p.M, p.Minv, p.q0, p.v0, p.v0, p.N, Q, p.nrel, p.cor, alpha);
  vc_eqi(alpha.size(), p.nc, GA); for (int c = 0; c < p.nc; ++c) vc_eq(alpha(c), p.sum(c), GA); feasible(p, alpha); vc_cover(p.resolved ? "resolved" : "nothing to do");
}
#define BL "the blend is (1-CoR) times the inelastic plus CoR times the elastic impulses"
#define BC "the inelastic operator is run with restitution 0 and the elastic one with restitution 1, on the unchanged problem"
struct BlendOp final : public ImpactOperator {
  Prob& p; const VectorXs& out; const SparseMatrixsc& Q_; const Cons& cons_; const scalar e; int& n; BlendOp(Prob& p_, const VectorXs& o, const SparseMatrixsc& q, const Cons& c, scalar r, int& n_) : p(p_), out(o), Q_(q), cons_(c), e(r), n(n_) {}
  virtual void flow(const Cons& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha) override {
    ++n; vc_assert((&M == &p.M) & (&Minv == &p.Minv) & (&N == &p.N) & (&Q == &Q_) & (&cons == &cons_), BC); vc_eqi(CoR.size(), p.nc, BC); vc_eqi(alpha.size(), p.nc, BC); for (int d = 0; d < p.nv; ++d) { vc_eq(q0(d), p.q0(d), BC); vc_eq(v0(d), p.v0(d), BC); vc_eq(v0F(d), p.v0(d), BC); }
    for (int c = 0; c < p.nc; ++c) { vc_eq(CoR(c), e, BC); vc_eq(nrel(c), p.nrel(c), BC); alpha(c) = out(c); } }
  virtual std::string name() const override { return "blend"; }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>(new BlendOp(p, out, Q_, cons_, e, n)); }
  virtual void serialize(std::ostream&) const override {}
};
VC(grr)
{
  Prob p(2, int(vc_size("nc", 1, 3))); const int w = int(vc_choose("extreme", 3)); if (w < 2) for (int i = 0; i < p.nc; ++i) p.cor(i) = w;
  Cons cons; SparseMatrixsc Q; VectorXs alpha = vc_vecx("alpha0", p.nc); const VectorXs ai = vc_vecx("inelastic", p.nc), ae = vc_vecx("elastic", p.nc); int ni = 0, ne = 0; BlendOp in(p, ai, Q, cons, 0, ni), el(p, ae, Q, cons, 1, ne);
  GRROperator op(el, in); op.flow(cons, p.M, p.Minv, p.q0, p.v0, p.v0, p.N, Q, p.nrel, p.cor, alpha); const scalar e = p.cor(0);
  vc_eqi(alpha.size(), p.nc, BL); for (int c = 0; c < p.nc; ++c) vc_eq(alpha(c), (1 - e) * ai(c) + e * ae(c), BL); vc_cover(w == 0 ? "inelastic" : w == 1 ? "elastic" : "blend");
}
#define LT "the LCP right-hand side is N^T v0F + nrel + CoR (N^T v0 + nrel)"
VC(linearTerm)
{
  Prob p(2, int(vc_size("nc", 1, 3))); const VectorXs vF = vc_vecx("v0F", p.nv); VectorXs lt = vc_vecx("lt0", 1); for (int i = 0; i < p.nc; ++i) p.cor(i) = vc_real_in("CoRi", 0, 1); ImpactOperatorUtilities::computeLCPQPLinearTerm(p.N, p.nrel, p.cor, p.v0, vF, lt);
  vc_eqi(lt.size(), p.nc, LT); for (int c = 0; c < p.nc; ++c) vc_eq(lt(c), p.ndot(c, vF) + p.cor(c) * p.ndot(c, p.v0), LT); vc_cover("done");
}
#define CN "column i of N is the constraint gradient of contact i"
VC(normalBasis)
{
  Prob p(2, int(vc_size("nc", 0, 3))); for (int c = 0; c < p.nc; ++c) { vc_assume((p.G(0, c) < 0) | (p.G(0, c) > 0)); if (c > 0) vc_assume((p.G(1, c) < 0) | (p.G(1, c) > 0)); } Cons cons = vc_cons(p); SparseMatrixsc N(p.nv, p.nc); ImpactOperatorUtilities::computeN(vc_anysys(), cons, p.q0, N);
  vc_eqi(N.rows(), p.nv, CN); vc_eqi(N.cols(), p.nc, CN); for (int c = 0; c < p.nc; ++c) { scalar s[2] = {0, 0}; for (SparseMatrixsc::InnerIterator it(N, c); it; ++it) { vc_assert(it.value() != 0, "N stores no explicit zeros"); s[it.row()] += it.value(); } for (int d = 0; d < 2; ++d) vc_eq(s[d], p.G(d, c), CN); } vc_cover("done");
}
VC(kinematicTerm)
{
  Prob p(2, int(vc_size("nc", 0, 3))); Cons cons = vc_cons(p); VectorXs g = vc_vecx("g", 1); ImpactOperatorUtilities::evalKinematicRelativeVelocityN(p.q0, cons, g); vc_eqi(g.size(), p.nc, "one kinematic normal velocity per contact"); for (int c = 0; c < p.nc; ++c) vc_eq(g(c), p.nrel(c), "kinematic normal velocities are those of the contacts, in order"); vc_cover("done");
}
