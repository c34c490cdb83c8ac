// any flowable system whose mass matrix is constant and diagonal (2D systems): the contract of FlowableSystem the integrators rely on
#ifndef VC_SYS2D_H
#define VC_SYS2D_H
#include "eig.h"
#include "scisim/UnconstrainedMaps/FlowableSystem.h"
static SparseMatrixsc diag(const VectorXs& d) { SparseMatrixsc M(d.size(), d.size()); M.reserve(d.size()); for (long i = 0; i < d.size(); ++i) { M.startVec(i); M.insertBack(i, i) = d(i); } M.finalize(); return M; }
struct Sys2d final : public FlowableSystem {
  int N; unsigned dpb; VectorXs m, fa, fb, fc; SparseMatrixsc Mm, Mi; std::vector<bool> fixed;
  Sys2d(long n, unsigned d, bool veldep) : N(int(n * d)), dpb(d), m(n * d), fa(vc_vecx("fa", n * d)), fb(VectorXs::Zero(n * d)), fc(vc_vecx("fc", n * d)) {
    vc_fill_pos("m", m.data(), N); if (veldep) vc_fill("fb", fb.data(), N); Mm = diag(m); VectorXs mi(N); for (int i = 0; i < N; ++i) mi(i) = 1.0 / m(i); Mi = diag(mi); for (long i = 0; i < n; ++i) fixed.push_back(false); }
  scalar force(long i, scalar q, scalar v) const { return fa(i) * q + fb(i) * v + fc(i); }
  virtual int nqdofs() const override { return N; }
  virtual int nvdofs() const override { return N; }
  virtual unsigned numVelDoFsPerBody() const override { return dpb; }
  virtual unsigned ambientSpaceDimensions() const override { return 2; }
  virtual bool isKinematicallyScripted(const int i) const override { return fixed[i]; }
  virtual void computeForce(const VectorXs& q, const VectorXs& v, const scalar&, VectorXs& F) override { for (int i = 0; i < N; ++i) F(i) = force(i, q(i), v(i)); }
  virtual void zeroOutForcesOnFixedBodies(VectorXs& F) const override { for (int i = 0; i < N; ++i) if (fixed[i / int(dpb)]) F(i) = 0; }
  virtual void linearInertialConfigurationUpdate(const VectorXs& q0, const VectorXs& v0, const scalar& dt, VectorXs& q1) const override { q1 = q0 + dt * v0; }
  virtual const SparseMatrixsc& M() const override { return Mm; }
  virtual const SparseMatrixsc& Minv() const override { return Mi; }
  virtual const SparseMatrixsc& M0() const override { return Mm; }
  virtual const SparseMatrixsc& Minv0() const override { return Mi; }
  virtual void computeMomentum(const VectorXs&, VectorXs&) const override {}
  virtual void computeAngularMomentum(const VectorXs&, VectorXs&) const override {}
  virtual std::string name() const override { return "sys"; }
};
#define SE "symplectic Euler: v1 = v0 + dt M^-1 F(q0,v0), q1 = q0 + dt v1"
#define VE "velocity Verlet: q1 = q0 + dt v0 + dt^2/2 a0, v1 = v0 + dt/2 (a0 + a1)"
#define FX "the velocity of a fixed body is unchanged and it moves with it"
template<class Map> static void symplectic(Sys2d& s)
{
  const VectorXs q0 = vc_vecx("q0", s.N), v0 = vc_vecx("v0", s.N); VectorXs q1 = vc_vecx("q1", s.N), v1 = vc_vecx("v1", s.N); const scalar dt = vc_pos("dt"); Map map; map.flow(q0, v0, s, unsigned(vc_int("it", 1, 100000)), dt, q1, v1);
  vc_eqi(q1.size(), s.N, SE); vc_eqi(v1.size(), s.N, SE);
  for (int i = 0; i < s.N; ++i) { if (s.fixed[i / int(s.dpb)]) { vc_eq(v1(i), v0(i), FX); vc_eq(q1(i), q0(i) + dt * v0(i), FX); continue; }
    const scalar v = v0(i) + dt * s.force(i, q0(i), v0(i)) / s.m(i); vc_eq(v1(i), v, SE); vc_eq(q1(i), q0(i) + dt * v, SE); }
  vc_cover("done");
}
template<class Map> static void verlet(Sys2d& s)
{
  const VectorXs q0 = vc_vecx("q0", s.N), v0 = vc_vecx("v0", s.N); VectorXs q1 = vc_vecx("q1", s.N), v1 = vc_vecx("v1", s.N); const scalar dt = vc_pos("dt"); Map map; map.flow(q0, v0, s, unsigned(vc_int("it", 1, 100000)), dt, q1, v1);
  vc_eqi(q1.size(), s.N, VE); vc_eqi(v1.size(), s.N, VE);
  for (int i = 0; i < s.N; ++i) { if (s.fixed[i / int(s.dpb)]) { vc_eq(v1(i), v0(i), FX); vc_eq(q1(i), q0(i) + dt * v0(i), FX); continue; }
    const scalar a0 = s.force(i, q0(i), 0) / s.m(i), q = q0(i) + dt * v0(i) + 0.5 * dt * dt * a0, a1 = s.force(i, q, 0) / s.m(i); vc_eq(q1(i), q, VE); vc_eq(v1(i), v0(i) + 0.5 * dt * (a0 + a1), VE); }
  vc_cover("done");
}
#endif
