// ImpactMap::flow against the contracts of the systems, maps and operators it calls
// BOUND .* 2 3
// OPT forkint true
#include "imp.h"
#include "sys2d.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/Constraints/ConstrainedSystem.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/ScriptingCallback.h"
#include "scisim/Math/Rational.h"
#define IP "without active contacts the step is the unconstrained predictor and the impulse cache is emptied"
#define IA "active contacts are found between the start and the predicted configuration"
#define IO "the impact operator receives the active contacts' normals, quadratic term, kinematic velocities, restitution and the start velocity"
#define IW "warm starting seeds the operator with exactly the cached impulses of the same contacts, otherwise with zero"
#define IC "the cache holds exactly the new impulses of the active contacts afterwards"
#define IV "the step is the unconstrained map applied to q0 and v0 + Minv N alpha"
struct World; 
struct AnyCSys final : public ConstrainedSystem {
  Prob& p; World& w; AnyCSys(Prob& p_, World& w_) : p(p_), w(w_) {}
  virtual void computeActiveSet(const VectorXs& q0, const VectorXs& qp, const VectorXs& v, Cons& a) override;
  virtual void computeImpactBases(const VectorXs&, const Cons&, MatrixXXsc&) const override {}
  virtual void computeContactBases(const VectorXs&, const VectorXs&, const Cons&, MatrixXXsc&) const override {}
  virtual void clearConstraintCache() override;
  virtual void cacheConstraint(const Constraint& c, const VectorXs& r) override;
  virtual void getCachedConstraintImpulse(const Constraint& c, VectorXs& r) const override;
  virtual bool constraintCacheEmpty() const override;
};
struct World {
  Prob& p; Sys2d& s; int active; scalar dt; unsigned it; VectorXs cache, first, alpha; bool has[4]; int asked = 0, steps = 0, ops = 0; bool warm, scripted; VectorXs scor, pq, pv, fq, fv; scalar cordef;
  World(Prob& p_, Sys2d& s_) : p(p_), s(s_), active(p_.nc), dt(vc_pos("dt")), it(unsigned(vc_int("it", 1, 1000))), cache(vc_vecx("cache", p_.nc)), first(cache), alpha(vc_vecx("alpha", p_.nc)), warm(vc_bool("warm")), scripted(vc_bool("scripted")), scor(VectorXs(p_.nc)), pq(vc_vecx("pq", p_.nv)), pv(vc_vecx("pv", p_.nv)), fq(vc_vecx("fq", p_.nv)), fv(vc_vecx("fv", p_.nv)), cordef(vc_real_in("cordef", 0, 1)) { for (int i = 0; i < 4; ++i) has[i] = true; for (int i = 0; i < p.nc; ++i) scor(i) = vc_real_in("scor", 0, 1); }
};
static int which(const Constraint& c) { return static_cast<const AnyCon&>(c).k; }
void AnyCSys::computeActiveSet(const VectorXs& q0, const VectorXs& qp, const VectorXs& v, Cons& a) { for (int d = 0; d < p.nv; ++d) { vc_eq(q0(d), p.q0(d), IA); vc_eq(qp(d), w.pq(d), IA); vc_eq(v(d), p.v0(d), IA); } for (int i = 0; i < w.active; ++i) a.emplace_back(new AnyCon(p, i)); }
void AnyCSys::clearConstraintCache() { for (int i = 0; i < 4; ++i) w.has[i] = false; }
void AnyCSys::cacheConstraint(const Constraint& c, const VectorXs& r) { vc_eqi(r.size(), 1, IC); w.has[which(c)] = true; w.cache(which(c)) = r(0); }
void AnyCSys::getCachedConstraintImpulse(const Constraint& c, VectorXs& r) const { vc_assert(w.warm, IW); vc_eqi(r.size(), 1, IW); vc_assert(w.has[which(c)], IW); r(0) = w.cache(which(c)); ++w.asked; }
bool AnyCSys::constraintCacheEmpty() const { for (int i = 0; i < 4; ++i) if (w.has[i]) return false; return true; }
struct AnyMap final : public UnconstrainedMap {
  World& w; AnyMap(World& w_) : w(w_) {}
  virtual void flow(const VectorXs& q0, const VectorXs& v0, FlowableSystem& f, const unsigned it, const scalar& dt, VectorXs& q1, VectorXs& v1) override {
    const bool fin = w.steps++ > 0; vc_assert(w.steps <= 2, IV); vc_eqi(it, w.it, IV); vc_eq(dt, w.dt, IV); vc_assert(&f == &w.s, IV); for (int d = 0; d < w.p.nv; ++d) vc_eq(q0(d), w.p.q0(d), IV);
    for (int d = 0; d < w.p.nv; ++d) { scalar e = w.p.v0(d); if (fin) for (int c = 0; c < w.p.nc; ++c) e += w.p.G(d, c) * w.alpha(c) / w.s.m(d); vc_eq(v0(d), e, IV); }
    q1 = fin ? w.fq : w.pq; v1 = fin ? w.fv : w.pv; }
  virtual std::string name() const override { return "any"; }
  virtual void serialize(std::ostream&) const override {}
};
struct AnyIOp final : public ImpactOperator {
  World& w; AnyIOp(World& w_) : w(w_) {}
  virtual void flow(const Cons& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha) override {
    Prob& p = w.p; ++w.ops; vc_assert((&M == &w.s.Mm) & (&Minv == &w.s.Mi), IO); vc_eqi(cons.size(), p.nc, IO); vc_eqi(N.rows(), p.nv, IO); vc_eqi(N.cols(), p.nc, IO); vc_eqi(nrel.size(), p.nc, IO); vc_eqi(CoR.size(), p.nc, IO); vc_eqi(alpha.size(), p.nc, IO); vc_eqi(Q.rows(), p.nc, IO); vc_eqi(Q.cols(), p.nc, IO); const MatrixXXsc Nd = N, Qd = Q;
    for (int d = 0; d < p.nv; ++d) { vc_eq(q0(d), p.q0(d), IO); vc_eq(v0(d), p.v0(d), IO); vc_eq(v0F(d), p.v0(d), IO); }
    for (int c = 0; c < p.nc; ++c) { for (int d = 0; d < p.nv; ++d) vc_eq(Nd(d, c), p.G(d, c), IO); vc_eq(nrel(c), p.nrel(c), IO); vc_eq(CoR(c), w.scripted ? w.scor(c) : w.cordef, IO); vc_eq(alpha(c), w.warm ? w.first(c) : 0, IW); for (int e = 0; e < p.nc; ++e) { scalar t = 0; for (int d = 0; d < p.nv; ++d) t += p.G(d, c) * p.G(d, e) / w.s.m(d); vc_eq(Qd(c, e), t, IO); } }
    alpha = w.alpha; }
  virtual std::string name() const override { return "any"; }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>(new AnyIOp(w)); }
  virtual void serialize(std::ostream&) const override {}
};
struct AnyCallback final : public ScriptingCallback {
  World& w; AnyCallback(World& w_) : w(w_) {}
  virtual void restitutionCoefficient(const Cons& a, VectorXs& cor) override { vc_assert(w.scripted, IO); vc_eqi(a.size(), w.p.nc, IO); cor = w.scor; }
  virtual void frictionCoefficient(const Cons&, VectorXs&) override {}
  virtual void startOfSim() override {} virtual void endOfSim() override {}
  virtual void startOfStep(const unsigned, const Rational<std::intmax_t>&) override {} virtual void endOfStep(const unsigned, const Rational<std::intmax_t>&) override {}
  virtual std::string name() const override { return w.scripted ? "s" : ""; }
};
VC(impactMap)
{
  const int nc = int(vc_size("nc", 0, 3)); Prob p(2, nc); for (int i = 0; i < nc * 2; ++i) vc_assume((p.G.data()[i] < 0) | (p.G.data()[i] > 0)); Sys2d s(1, 2, false); World w(p, s); AnyCSys cs(p, w); AnyMap um(w); AnyIOp io(w); AnyCallback cb(w); VectorXs q1(p.nv), v1(p.nv);
  ImpactMap map(w.warm); map.flow(cb, s, cs, um, io, w.it, w.dt, w.cordef, p.q0, p.v0, q1, v1);
  if (nc == 0) { vc_eqi(w.steps, 1, IP); vc_eqi(w.ops, 0, IP); for (int i = 0; i < 4; ++i) vc_assert(!w.has[i], IP); for (int d = 0; d < p.nv; ++d) { vc_eq(q1(d), w.pq(d), IP); vc_eq(v1(d), w.pv(d), IP); } vc_cover("free"); return; }
  vc_eqi(w.steps, 2, IV); vc_eqi(w.ops, 1, IO); for (int d = 0; d < p.nv; ++d) { vc_eq(q1(d), w.fq(d), IV); vc_eq(v1(d), w.fv(d), IV); }
  for (int i = 0; i < 4; ++i) vc_eqi(w.has[i], w.warm && i < nc, IC); for (int i = 0; i < nc; ++i) if (w.warm) vc_eq(w.cache(i), w.alpha(i), IC); vc_cover("contact");
}
