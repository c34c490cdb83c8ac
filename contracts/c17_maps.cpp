// Impact/friction maps: how a step composes the integrator, contact detection, the friction solver and the impulse cache
// BOUND .* 2 2
// OPT forkint true
#include "c17.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include "scisim/ConstrainedMaps/ImpulsesToCache.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#define CX "the relative velocity due to the forces of the step, and the penetration beyond the threshold divided by the step when stabilising, are passed on"
#define CE "symplectic Euler: the forces of the start state change the velocity of free bodies by dt M^-1 F, contacts are resolved against it, and the position moves with the end velocity"
struct Solve17 final : public FrictionSolver {
  W17& w; bool warm, warmB, extra; VectorXs start, en, ed; Solve17(W17& w_, const VectorXs& v) : w(w_), warm(false), warmB(false), extra(false), start(v), en(w_.nc), ed(w_.nc) {}
  virtual void solve(const unsigned iteration, const scalar& dt, const FlowableSystem& fsys, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, Cons& active_set, const MatrixXXsc& b, const VectorXs& ne, const VectorXs& de, const unsigned max_iters, const scalar& tol, VectorXs& f, VectorXs& alpha, VectorXs& beta, VectorXs& v2, bool& ok, scalar& error) override {
    ++w.solves; vc_eqi(iteration, w.it, CS); vc_eq(dt, w.dt, CS); vc_assert((&fsys == &w.s) & (&M == &w.s.Mm) & (&Minv == &w.s.Mi), CS); vc_eqi(max_iters, w.maxit, CS); vc_eq(tol, w.tol, CS); vc_eqi(long(active_set.size()), w.nc, CS); for (int i = 0; i < w.nc; ++i) vc_eqi(which(*active_set[size_t(i)]), i, CS);
    vc_eqi(CoR.size(), w.nc, CS); vc_eqi(mu.size(), w.nc, CS); vc_eqi(alpha.size(), w.nc, CS); vc_eqi(beta.size(), w.nc, CS); vc_eqi(b.rows(), 2, CS); vc_eqi(b.cols(), 2 * w.nc, CS); vc_eqi(f.size(), NV, CS); vc_eqi(v2.size(), NV, CS);
    for (int d = 0; d < NV; ++d) { vc_eq(q0(d), w.q0(d), CS); vc_eq(v0(d), start(d), CS); vc_eq(f(d), w.f(d), CW); }
    for (int c = 0; c < w.nc; ++c) { vc_eq(CoR(c), w.cor(c), CS); vc_eq(mu(c), w.mu(c), CS); vc_eq(alpha(c), warm ? w.sa(c) : 0.0, CW); vc_eq(beta(c), warmB ? w.sb(c) : 0.0, CW); for (int d = 0; d < 2; ++d) { vc_eq(b(d, 2 * c), w.bases(d, 2 * c), CB); vc_eq(b(d, 2 * c + 1), w.bases(d, 2 * c + 1), CB); } }
    vc_eqi(ne.size(), extra ? w.nc : 0, CX); vc_eqi(de.size(), extra ? w.nc : 0, CX); if (extra) for (int c = 0; c < w.nc; ++c) { vc_eq(ne(c), en(c), CX); vc_eq(de(c), ed(c), CX); }
    alpha = w.outA; beta = w.outB; v2 = w.v2; ok = true; error = 0; }
  virtual unsigned numFrictionImpulsesPerNormal(const unsigned dims) const override { vc_eqi(dims, 2, CS); return 1; }
  virtual void serialize(std::ostream&) const override {} virtual std::string name() const override { return "any"; }
};
// f: friction impulses kept from the last step; forgotten (zero) when their number does not fit
template<class M> static void friction(M& m, W17& w) { if (vc_choose("cachedf", 2) == 0) w.f.setZero(); else m.m_f = w.f; }
VC(stabilized)
{
  const int nc = int(vc_size("nc", 0, 3)); W17 w(nc, true); CSys17 cs(w, true); Map17 um(w); Call17 cb(w); Solve17 fs(w, w.pv); VectorXs q1(NV), v1(NV); StabilizedImpactFrictionMap m(w.tol, w.maxit, false, false); friction(m, w);
  m.flow(cb, w.s, cs, um, fs, w.it, w.dt, w.cord, w.mud, w.q0, w.v0, q1, v1); vc_eqi(w.steps, 1, CU); vc_eqi(q1.size(), NV, CV); vc_eqi(v1.size(), NV, CV);
  if (nc == 0) { vc_eqi(w.solves, 0, CF); for (int d = 0; d < NV; ++d) { vc_eq(q1(d), w.pq(d), CF); vc_eq(v1(d), w.pv(d), CF); } vc_cover("free"); return; }
  vc_eqi(w.solves, 1, CS); for (int d = 0; d < NV; ++d) { vc_eq(v1(d), w.v2(d), CV); vc_eq(q1(d), w.q0(d) + w.dt * w.v2(d), CV); } vc_cover("contact");
}
static void cached(const W17& w, int mode) { for (int i = 0; i < 4; ++i) vc_eqi(w.has[i], mode > 0 && i < w.nc, CC); for (int i = 0; i < w.nc; ++i) { if (mode > 0) vc_eq(w.cacheA(i), w.outA(i), CC); if (mode > 1) vc_eq(w.cacheB(i), w.outB(i), CC); } }
VC(geometric)
{
  const int nc = int(vc_size("nc", 0, 3)), mode = int(vc_choose("mode", 3)); W17 w(nc, mode == 0); w.entry = mode; CSys17 cs(w, false); Map17 um(w); Call17 cb(w); Solve17 fs(w, w.v0); fs.warm = mode > 0; fs.warmB = mode > 1; VectorXs q1(NV), v1(NV); GeometricImpactFrictionMap m(w.tol, w.maxit, mode == 0 ? ImpulsesToCache::NONE : mode == 1 ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION); friction(m, w);
  m.flow(cb, w.s, cs, um, fs, w.it, w.dt, w.cord, w.mud, w.q0, w.v0, q1, v1); vc_eqi(q1.size(), NV, CV); vc_eqi(v1.size(), NV, CV); cached(w, mode);
  if (nc == 0) { vc_eqi(w.solves, 0, CF); vc_eqi(w.steps, 1, CF); for (int d = 0; d < NV; ++d) { vc_eq(q1(d), w.pq(d), CF); vc_eq(v1(d), w.pv(d), CF); } vc_cover("free"); return; }
  vc_eqi(w.solves, 1, CS); vc_eqi(w.steps, 2, CV); for (int d = 0; d < NV; ++d) { vc_eq(v1(d), w.fv(d), CV); vc_eq(q1(d), w.fq(d), CV); } vc_cover("contact");
}
VC(symplecticEuler)
{
  const int nc = int(vc_size("nc", 0, 3)), mode = int(vc_choose("mode", 3)); const bool stab = vc_choose("stabilize", 2) != 0; const scalar thr = vc_real_in("threshold", 0, 1); W17 w(nc, mode == 0); w.entry = mode; w.cord = 0; VectorXs dv(NV); for (int d = 0; d < NV; ++d) { dv(d) = w.s.fixed[0] ? 0.0 : w.dt * w.s.force(d, w.q0(d), w.v0(d)) / w.s.m(d); w.pq(d) = w.q0(d) + w.dt * (w.v0(d) + dv(d)); }
  CSys17 cs(w, false); Map17 um(w); Call17 cb(w); Solve17 fs(w, w.v0); fs.warm = mode > 0; fs.warmB = mode > 1; fs.extra = true; for (int c = 0; c < nc; ++c) { scalar a = 0, b = 0; for (int d = 0; d < NV; ++d) { a += w.G(d, c) * dv(d); b += w.H(d, c) * dv(d); } if (vc_native()) vc_assume(std::fabs(w.gap(c) + thr) > 1e-9); fs.en(c) = a + (stab && w.gap(c) < 0 && -w.gap(c) >= thr ? w.gap(c) / w.dt : 0.0); fs.ed(c) = b; }
  VectorXs q1(NV), v1(NV); SymplecticEulerImpactFrictionMap m(w.tol, w.maxit, mode == 0 ? ImpulsesToCache::NONE : mode == 1 ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION, stab, thr); friction(m, w);
  m.flow(cb, w.s, cs, um, fs, w.it, w.dt, w.cord, w.mud, w.q0, w.v0, q1, v1); cached(w, mode); vc_eqi(w.steps, 0, CE); vc_eqi(w.solves, nc > 0, CS);
  for (int d = 0; d < NV; ++d) { const scalar v = (nc == 0 ? w.v0(d) : w.v2(d)) + dv(d); vc_eq(v1(d), v, CE); vc_eq(q1(d), w.q0(d) + w.dt * v, CE); } vc_cover(nc ? "contact" : "free");
}
