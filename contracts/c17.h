// Worlds known only through the contracts of the systems, callbacks, integrators and contacts an impact/friction map or friction solver calls
#ifndef VC_C17_H
#define VC_C17_H
#include "imp.h"
#include "sys2d.h"
#include "scisim/Constraints/ConstrainedSystem.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/ScriptingCallback.h"
#include "scisim/Math/Rational.h"
#define CA "contacts are sought between the start and the predicted configuration"
#define CB "contact bases are those of the active contacts"
#define CW "impulses start from exactly the cached ones of the same contacts in the modes that cache them, otherwise from zero"
#define CC "afterwards the cache holds exactly the impulses the mode keeps, for exactly the active contacts"
#define CF "without contacts the step is the unconstrained one and the solver is not called"
#define CS "the friction solver receives the step's data: masses, coefficients (scripted if there is a script), start configuration, velocity, contacts, bases, tolerances"
#define CV "the step is completed with the velocity the friction solver returns"
#define CU "the integrator is applied to the start configuration, with the start velocity for the predictor"
#define NV 2
struct W17 {
  int nc; MatrixXXsc G, H, bases; VectorXs nrel, drel, gap, q0, v0, pq, pv, fq, fv, cacheA, cacheB, outA, outB, v2, f, smu, scor, sa, sb; scalar dt, mud, cord, tol; unsigned it, maxit; bool scripted, has[4]; int steps = 0, solves = 0; long entry = 0; Sys2d s; VectorXs expv, expq;
  W17(int n, bool empty) : nc(n), G(NV, n), H(NV, n), bases(2, 2 * n), nrel(vc_vecx("nrel", n)), drel(vc_vecx("drel", n)), gap(vc_vecx("gap", n)), q0(vc_vecx("q0", NV)), v0(vc_vecx("v0", NV)), pq(vc_vecx("pq", NV)), pv(vc_vecx("pv", NV)), fq(vc_vecx("fq", NV)), fv(vc_vecx("fv", NV)), cacheA(vc_vecx("cacheA", n)), cacheB(vc_vecx("cacheB", n)), outA(vc_vecx("outA", n)), outB(vc_vecx("outB", n)), v2(vc_vecx("v2", NV)), f(vc_vecx("f", NV)), smu(n), scor(n), dt(vc_pos("dt")), mud(vc_real_in("mu", 0, 2)), cord(vc_real_in("cor", 0, 1)), tol(vc_real_in("tol", 0, 1)), it(unsigned(vc_int("it", 1, 1000))), maxit(unsigned(vc_int("maxit", 1, 1000))), scripted(vc_choose("scripted", 2) != 0), s(1, 2, true) {
    vc_fill("G", G.data(), NV * n); vc_fill("H", H.data(), NV * n); vc_fill("bases", bases.data(), 4 * n); for (int i = 0; i < NV * n; ++i) vc_assume((G.data()[i] != 0) & (H.data()[i] != 0)); for (int i = 0; i < n; ++i) { smu(i) = vc_real_in("smu", 0, 2); scor(i) = vc_real_in("scor", 0, 1); } for (int i = 0; i < 4; ++i) has[i] = !empty; sa = cacheA; sb = cacheB; s.fixed[0] = vc_choose("fixed", 2) != 0; }
  scalar mu(int c) const { return scripted ? smu(c) : mud; }
  scalar cor(int c) const { return scripted ? scor(c) : cord; }
};
struct Con17 final : public Constraint {
  W17& w; int k; Con17(W17& w_, int k_) : w(w_), k(k_) {}
  virtual scalar evalNdotV(const VectorXs&, const VectorXs&) const override { return 0; }
  virtual void evalgradg(const VectorXs& q, const int col, SparseMatrixsc& S, const FlowableSystem&) const override { for (int d = 0; d < NV; ++d) { vc_eq(q(d), w.q0(d), CS); S.insert(d, col) = w.G(d, k); } }
  virtual void computeGeneralizedFrictionGivenTangentSample(const VectorXs& q, const VectorXs& t, const unsigned col, SparseMatrixsc& S) const override { for (int d = 0; d < 2; ++d) vc_eq(t(d), w.bases(d, 2 * k + 1), CB); for (int d = 0; d < NV; ++d) { vc_eq(q(d), w.q0(d), CS); S.insert(d, int(col)) = w.H(d, k); } }
  virtual int impactStencilSize() const override { return NV; } virtual int frictionStencilSize() const override { return NV; }
  virtual scalar evaluateGapFunction(const VectorXs& q) const override { for (int d = 0; d < NV; ++d) vc_eq(q(d), w.q0(d), CS); return w.gap(k); }
  virtual void evalKinematicNormalRelVel(const VectorXs&, const int i, VectorXs& g) const override { g(i) = w.nrel(k); }
  virtual bool conservesTranslationalMomentum() const override { return false; } virtual bool conservesAngularMomentumUnderImpact() const override { return false; } virtual bool conservesAngularMomentumUnderImpactAndFriction() const override { return false; }
  virtual std::string name() const override { return "any"; }
  virtual VectorXs computeKinematicRelativeVelocity(const VectorXs&, const VectorXs&) const override { VectorXs r(2); r << w.nrel(k), w.drel(k); return r; }
};
static int which(const Constraint& c) { return static_cast<const Con17&>(c).k; }
struct CSys17 final : public ConstrainedSystem {
  W17& w; bool predv; // predv: contacts and bases use the predicted velocity
  CSys17(W17& w_, bool p) : w(w_), predv(p) {}
  virtual void computeActiveSet(const VectorXs& q0, const VectorXs& qp, const VectorXs& v, Cons& a) override { for (int d = 0; d < NV; ++d) { vc_eq(q0(d), w.q0(d), CA); vc_eq(qp(d), w.pq(d), CA); vc_eq(v(d), predv ? w.pv(d) : w.v0(d), CA); } for (int i = 0; i < w.nc; ++i) a.emplace_back(new Con17(w, i)); }
  virtual void computeImpactBases(const VectorXs&, const Cons&, MatrixXXsc&) const override {}
  virtual void computeContactBases(const VectorXs& q, const VectorXs& v, const Cons& a, MatrixXXsc& b) const override { vc_eqi(long(a.size()), w.nc, CB); for (int d = 0; d < NV; ++d) { vc_eq(q(d), w.q0(d), CB); vc_eq(v(d), predv ? w.pv(d) : w.v0(d), CB); } b = w.bases; }
  virtual void clearConstraintCache() override { for (int i = 0; i < 4; ++i) w.has[i] = false; }
  virtual void cacheConstraint(const Constraint& c, const VectorXs& r) override { vc_assert(w.entry > 0, CC); vc_eqi(r.size(), w.entry, CC); w.has[which(c)] = true; w.cacheA(which(c)) = r(0); if (w.entry == 2) w.cacheB(which(c)) = r(1); }
  virtual void getCachedConstraintImpulse(const Constraint& c, VectorXs& r) const override { vc_eqi(r.size(), w.entry, CW); vc_assert(w.has[which(c)], CW); r(0) = w.cacheA(which(c)); if (w.entry == 2) r(1) = w.cacheB(which(c)); }
  virtual bool constraintCacheEmpty() const override { for (int i = 0; i < 4; ++i) if (w.has[i]) return false; return true; }
};
struct Map17 final : public UnconstrainedMap {
  W17& w; Map17(W17& w_) : w(w_) {}
  virtual void flow(const VectorXs& q0, const VectorXs& v0, FlowableSystem& f, const unsigned it, const scalar& dt, VectorXs& q1, VectorXs& v1) override {
    const bool fin = w.steps++ > 0; vc_eqi(it, w.it, CU); vc_eq(dt, w.dt, CU); vc_assert(&f == &w.s, CU); for (int d = 0; d < NV; ++d) { vc_eq(q0(d), w.q0(d), CU); vc_eq(v0(d), fin ? w.v2(d) : w.v0(d), fin ? CV : CU); }
    const VectorXs a = fin ? w.fq : w.pq, b = fin ? w.fv : w.pv; q1 = a; v1 = b; }
  virtual std::string name() const override { return "any"; } virtual void serialize(std::ostream&) const override {}
};
struct Call17 final : public ScriptingCallback {
  W17& w; Call17(W17& w_) : w(w_) {}
  virtual void restitutionCoefficient(const Cons& a, VectorXs& cor) override { vc_assert(w.scripted, CS); vc_eqi(long(a.size()), w.nc, CS); cor = w.scor; }
  virtual void frictionCoefficient(const Cons& a, VectorXs& mu) override { vc_assert(w.scripted, CS); vc_eqi(long(a.size()), w.nc, CS); mu = w.smu; }
  virtual void startOfSim() override {} virtual void endOfSim() override {}
  virtual void startOfStep(const unsigned, const Rational<std::intmax_t>&) override {} virtual void endOfStep(const unsigned, const Rational<std::intmax_t>&) override {}
  virtual std::string name() const override { return w.scripted ? "s" : ""; }
};
#endif
