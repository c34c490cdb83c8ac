// Abstract impact problems: a contact known only through the contract of Constraint, a system known only through its inverse mass matrix
#ifndef VC_IMP_H
#define VC_IMP_H
#include "eig.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
typedef std::vector<std::unique_ptr<Constraint>> Cons;
inline SparseMatrixsc vc_dense(const MatrixXXsc& A) { SparseMatrixsc S(int(A.rows()), int(A.cols())); S.reserve(int(A.rows() * A.cols())); for (int c = 0; c < A.cols(); ++c) { S.startVec(c); for (int r = 0; r < A.rows(); ++r) S.insertBack(r, c) = A(r, c); } S.finalize(); return S; }
struct Prob {
  int nv, nc; MatrixXXsc G, W; VectorXs nrel, cor, q0, v0; SparseMatrixsc N, Minv, M; scalar tol; int resolved = 0, maxres = 2; VectorXs sum;
  Prob(int v, int c) : nv(v), nc(c), G(v, c), W(v, v), nrel(vc_vecx("nrel", c)), cor(c), q0(vc_vecx("q0", v)), v0(vc_vecx("v0", v)), M(v, v), tol(vc_real_in("tol", 0, 1)), sum(VectorXs::Zero(c)) {
    vc_fill("G", G.data(), v * c); vc_fill("Minv", W.data(), v * v); const scalar e = vc_real_in("CoR", 0, 1); for (int i = 0; i < c; ++i) cor(i) = e; N = vc_dense(G); Minv = vc_dense(W); }
  // velocity v0 + Minv N a
  scalar vel(int d, const VectorXs& a) const { scalar s = v0(d); for (int c = 0; c < nc; ++c) { scalar w = 0; for (int e = 0; e < nv; ++e) w += W(d, e) * G(e, c); s += w * a(c); } return s; }
  scalar ndot(int c, const VectorXs& v) const { scalar s = nrel(c); for (int d = 0; d < nv; ++d) s += G(d, c) * v(d); return s; }
  VectorXs vel(const VectorXs& a) const { VectorXs v(nv); for (int d = 0; d < nv; ++d) v(d) = vel(d, a); return v; }
};
struct AnyCon final : public Constraint {
  Prob& p; int k; AnyCon(Prob& p_, int k_) : p(p_), k(k_) {}
  virtual scalar evalNdotV(const VectorXs&, const VectorXs& v) const override { return p.ndot(k, v); }
  virtual void resolveImpact(const scalar& CoR, const SparseMatrixsc& M, const scalar& ndotv, VectorXs& v, scalar& alpha) const override {
    vc_eq(CoR, p.cor(k), "pairwise response uses the coefficient of restitution of this contact"); vc_assert(&M == &p.M, "pairwise response uses the mass matrix"); vc_eq(ndotv, p.ndot(k, v), "pairwise response is given the current normal relative velocity"); vc_assert(ndotv < -p.tol, "only violated contacts are resolved");
    vc_assume(p.resolved < p.maxres); ++p.resolved; alpha = vc_pos("alpha"); for (int d = 0; d < p.nv; ++d) { scalar w = 0; for (int e = 0; e < p.nv; ++e) w += p.W(d, e) * p.G(e, k); v(d) += w * alpha; } p.sum(k) += alpha; }
  virtual void evalgradg(const VectorXs&, const int col, SparseMatrixsc& S, const FlowableSystem&) const override { for (int d = 0; d < p.nv; ++d) S.insert(d, col) = p.G(d, k); }
  virtual int impactStencilSize() const override { return p.nv; }
  virtual void evalKinematicNormalRelVel(const VectorXs&, const int i, VectorXs& g) const override { g(i) = p.nrel(k); }
  virtual bool conservesTranslationalMomentum() const override { return false; }
  virtual bool conservesAngularMomentumUnderImpact() const override { return false; }
  virtual bool conservesAngularMomentumUnderImpactAndFriction() const override { return false; }
  virtual std::string name() const override { return "any"; }
  virtual VectorXs computeKinematicRelativeVelocity(const VectorXs&, const VectorXs&) const override { return VectorXs(); }
};
inline Cons vc_cons(Prob& p) { Cons c; for (int i = 0; i < p.nc; ++i) c.emplace_back(new AnyCon(p, i)); return c; }
#endif
