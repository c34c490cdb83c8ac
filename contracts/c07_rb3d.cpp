// Integrators of RigidBody3D systems.
#include "st_rb3d.h"
#include "rigidbody3d/RigidBody3DSim.h"
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#include "rigidbody3d/UnconstrainedMaps/IntegrationTools.h"
#include <cmath>
// BOUND (splitHamStep|inertial) 1 2
// NATIVEONLY dmv expEuler splitHam
#define OR "orientations stay orthonormal and right-handed"
#define LM "v1 carries exactly the momentum p0 + dt/2 (F(q0) + F(q1)); torque-free spatial angular momentum is conserved"
#define PS "positions are advanced by dt v0 + dt^2/2 a0"
#define FX "fixed bodies do not move"
namespace {
struct Probe final : public Force {  // an arbitrary position-dependent force and torque
  scalar a; VectorXs c; Probe(scalar a_, const VectorXs& c_) : a(a_), c(c_) {}
  scalar at(long i, const VectorXs& q) const { return a * q(i % (q.size() / 4)) + c(i); }
  virtual scalar computePotential(const VectorXs&, const SparseMatrixsc&) const override { return 0; }
  virtual void computeForce(const VectorXs& q, const VectorXs& v, const SparseMatrixsc&, VectorXs& F) const override { for (long i = 0; i < v.size(); ++i) F(i) += at(i, q); }
  virtual std::string name() const override { return "probe"; }
  virtual std::unique_ptr<Force> clone() const override { return std::unique_ptr<Force>{new Probe{a, c}}; }
  virtual void serialize(std::ostream&) const override {}
};
struct Run { Rb3d st; RigidBody3DSim sim; VectorXs q0, v0, q1, v1; scalar dt; long n; std::unique_ptr<Probe> f; };
}
static Matrix33sr rotOf(const VectorXs& q, long n, long i) { Matrix33sr R; for (int k = 0; k < 9; ++k) R(k / 3, k % 3) = q(3 * n + 9 * i + k); return R; }
static void setup(Run& r, long n, bool allowFixed)
{
  r.n = n; makeBodies3d(r.st, n, 1); for (long i = 0; i < n; ++i) { if (!allowFixed) r.st.fixed[i] = false; if (r.st.fixed[i]) { r.st.V[i] = Vector3s(0, 0, 0); r.st.w[i] = Vector3s(0, 0, 0); } }
  if (vc_native()) for (long i = 0; i < n; ++i) { // physically possible inertias, moderate speeds
      const Vector3s e = r.st.I0[i]; for (int k = 0; k < 3; ++k) { r.st.I0[i](k) = e((k + 1) % 3) + e((k + 2) % 3); vc_assume(e(k) < 50 && e(k) > 0.02); } vc_assume(r.st.w[i].norm() < 20); }
  r.st.set(r.sim.getState()); r.q0 = r.sim.getState().q(); r.v0 = r.sim.getState().v(); r.q1 = vc_vecx("q1", 12 * n); r.v1 = vc_vecx("v1", 6 * n); r.dt = vc_pos("dt"); if (vc_native()) vc_assume(r.dt < 0.01);
  r.f.reset(new Probe{vc_real("fa"), vc_vecx("fc", 6 * n)}); r.sim.getState().addForce(*r.f);
}
// p1 = p0 + dt/2 (F0 + F1), with p the momentum for the mass and the inertia rotated to the orientation
static void momenta(const Run& r)
{
  const long n = r.n; vc_eqi(r.q1.size(), 12 * n, PS); vc_eqi(r.v1.size(), 6 * n, PS);
  for (long i = 0; i < n; ++i) {
    if (r.st.fixed[i]) { for (int k = 0; k < 3; ++k) { vc_eq(r.q1(3 * i + k), r.q0(3 * i + k), FX); vc_eq(r.v1(3 * i + k), 0, FX); vc_eq(r.v1(3 * n + 3 * i + k), 0, FX); } for (int k = 0; k < 9; ++k) vc_eq(r.q1(3 * n + 9 * i + k), r.q0(3 * n + 9 * i + k), FX); continue; }
    const scalar m = r.st.M[i]; const Matrix33sr R0 = r.st.rot(i), R1 = rotOf(r.q1, n, i);
    for (int k = 0; k < 3; ++k) {
      const long d = 3 * i + k; vc_eq(r.q1(d), r.q0(d) + r.dt * r.v0(d) + 0.5 * r.dt * r.dt * r.f->at(d, r.q0) / m, PS); vc_eq(r.v1(d), r.v0(d) + 0.5 * r.dt * (r.f->at(d, r.q0) + r.f->at(d, r.q1)) / m, LM);
    }
    // R1 I^-1 R1^T (L0 + dt/2 (T0 + T1)) = w1
    scalar L[3], b[3]; for (int k = 0; k < 3; ++k) b[k] = r.st.I0[i](k) * (R0(0, k) * r.st.w[i](0) + R0(1, k) * r.st.w[i](1) + R0(2, k) * r.st.w[i](2));
    for (int k = 0; k < 3; ++k) { const long d = 3 * n + 3 * i + k; L[k] = R0(k, 0) * b[0] + R0(k, 1) * b[1] + R0(k, 2) * b[2] + 0.5 * r.dt * (r.f->at(d, r.q0) + r.f->at(d, r.q1)); }
    for (int k = 0; k < 3; ++k) b[k] = (R1(0, k) * L[0] + R1(1, k) * L[1] + R1(2, k) * L[2]) / r.st.I0[i](k);
    for (int k = 0; k < 3; ++k) vc_eq(r.v1(3 * n + 3 * i + k), R1(k, 0) * b[0] + R1(k, 1) * b[1] + R1(k, 2) * b[2], LM);
  }
}
static void orthonormal(const Matrix33sr& R)
{
  for (int a = 0; a < 3; ++a) for (int b = a; b < 3; ++b) vc_eq(R(a, 0) * R(b, 0) + R(a, 1) * R(b, 1) + R(a, 2) * R(b, 2), a == b ? 1 : 0, OR);
  vc_eq(R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0)), 1, OR);
}
VC(splitHam)
{
  Run r; setup(r, vc_size("n", 0, 3), true); SplitHamMap map; map.flow(r.q0, r.v0, r.sim, unsigned(vc_int("it", 1, 1000)), r.dt, r.q1, r.v1); momenta(r); for (long i = 0; i < r.n; ++i) orthonormal(rotOf(r.q1, r.n, i)); vc_cover("done");
}
// any 3D system: block-diagonal mass matrix with an arbitrary spatial inertia, body-frame inertia, any force
namespace {
struct Sys3d final : public FlowableSystem {
  long n; VectorXs m, I, S, fa, fc; SparseMatrixsc Mm, Mi, Mm0, Mi0; std::vector<bool> fixed;
  static SparseMatrixsc blocks(long n, const VectorXs& m, const VectorXs& S) { SparseMatrixsc M(6 * n, 6 * n); M.reserve(12 * n); for (long i = 0; i < 3 * n; ++i) { M.startVec(i); M.insertBack(i, i) = m(i / 3); } for (long b = 0; b < n; ++b) for (long c = 0; c < 3; ++c) { M.startVec(3 * n + 3 * b + c); for (long r = 0; r < 3; ++r) M.insertBack(3 * n + 3 * b + r, 3 * n + 3 * b + c) = S(9 * b + 3 * r + c); } M.finalize(); return M; }
  static SparseMatrixsc diag(long n, const VectorXs& m, const VectorXs& I) { SparseMatrixsc M(6 * n, 6 * n); M.reserve(6 * n); for (long i = 0; i < 6 * n; ++i) { M.startVec(i); M.insertBack(i, i) = i < 3 * n ? m(i / 3) : I(i - 3 * n); } M.finalize(); return M; }
  Sys3d(long n_) : n(n_), m(n_), I(3 * n_), S(vc_vecx("S", 9 * n_)), fa(vc_vecx("fa", 6 * n_)), fc(vc_vecx("fc", 6 * n_)) {
    vc_fill_pos("m", m.data(), n); vc_fill_pos("I", I.data(), 3 * n); VectorXs mi(n), Ii(3 * n); for (long i = 0; i < n; ++i) mi(i) = 1.0 / m(i); for (long i = 0; i < 3 * n; ++i) Ii(i) = 1.0 / I(i);
    Mm = blocks(n, m, S); Mi = blocks(n, mi, vc_vecx("Si", 9 * n)); Mm0 = diag(n, m, I); Mi0 = diag(n, mi, Ii); for (long i = 0; i < n; ++i) fixed.push_back(vc_bool("fixed") != 0); }
  scalar force(long i, const VectorXs& q) const { return fa(i) * q(i % (3 * n)) + fc(i); }
  virtual int nqdofs() const override { return int(12 * n); }
  virtual int nvdofs() const override { return int(6 * n); }
  virtual unsigned numVelDoFsPerBody() const override { return 6; }
  virtual unsigned ambientSpaceDimensions() const override { return 3; }
  virtual bool isKinematicallyScripted(const int i) const override { return fixed[i]; }
  virtual void computeForce(const VectorXs& q, const VectorXs&, const scalar&, VectorXs& F) override { for (long i = 0; i < 6 * n; ++i) F(i) = force(i, q); }
  virtual void zeroOutForcesOnFixedBodies(VectorXs&) const override {}
  virtual void linearInertialConfigurationUpdate(const VectorXs&, const VectorXs&, const scalar&, VectorXs&) const override {}
  virtual const SparseMatrixsc& M() const override { return Mm; }
  virtual const SparseMatrixsc& Minv() const override { return Mi; }
  virtual const SparseMatrixsc& M0() const override { return Mm0; }
  virtual const SparseMatrixsc& Minv0() const override { return Mi0; }
  virtual void computeMomentum(const VectorXs&, VectorXs&) const override {}
  virtual void computeAngularMomentum(const VectorXs&, VectorXs&) const override {}
  virtual std::string name() const override { return "sys"; }
};
}
// the rotation is the symmetric composition of the rotations about the body axes z, y, x, y, z by dt/2 pi_k / I_k (dt for x), pi the body angular momentum
static void about(int k, scalar a, scalar R[9]) { const int i = (k + 1) % 3, j = (k + 2) % 3; const scalar c = std::cos(a), s = std::sin(a); for (int t = 0; t < 9; ++t) R[t] = 0; R[4 * k] = 1; R[4 * i] = c; R[3 * i + j] = -s; R[3 * j + i] = s; R[4 * j] = c; }
static void mul(const scalar* A, const scalar* B, scalar* C) { scalar T[9]; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) T[3 * r + c] = A[3 * r] * B[c] + A[3 * r + 1] * B[3 + c] + A[3 * r + 2] * B[6 + c]; for (int t = 0; t < 9; ++t) C[t] = T[t]; }
VC(splitHamStep)
{
  const long n = vc_size("n", 0, 3); Sys3d s{n}; const VectorXs q0 = vc_vecx("q0", 12 * n); VectorXs v0 = vc_vecx("v0", 6 * n), q1 = vc_vecx("q1", 12 * n), v1 = vc_vecx("v1", 6 * n); const scalar dt = vc_native() ? vc_real_in("dt", 1e-8, 1e-5) : vc_pos("dt");
  for (long i = 0; i < n; ++i) if (s.fixed[i]) for (int k = 0; k < 3; ++k) v0(3 * i + k) = v0(3 * n + 3 * i + k) = 0;
  SplitHamMap map; map.flow(q0, v0, s, unsigned(vc_int("it", 1, 1000)), dt, q1, v1); vc_eqi(q1.size(), 12 * n, PS); vc_eqi(v1.size(), 6 * n, PS);
  for (long i = 0; i < n; ++i) {
    if (s.fixed[i]) { for (int k = 0; k < 3; ++k) { vc_eq(q1(3 * i + k), q0(3 * i + k), FX); vc_eq(v1(3 * i + k), 0, FX); vc_eq(v1(3 * n + 3 * i + k), 0, FX); } for (int k = 0; k < 9; ++k) vc_eq(q1(3 * n + 9 * i + k), q0(3 * n + 9 * i + k), FX); continue; }
    for (int k = 0; k < 3; ++k) { const long d = 3 * i + k; vc_eq(q1(d), q0(d) + dt * v0(d) + 0.5 * dt * dt * s.force(d, q0) / s.m(i), PS); vc_eq(v1(d), v0(d) + 0.5 * dt * (s.force(d, q0) + s.force(d, q1)) / s.m(i), LM); }
    scalar p[3], b[3], R[9], Q[9]; for (int t = 0; t < 9; ++t) R[t] = q0(3 * n + 9 * i + t);
    for (int k = 0; k < 3; ++k) { p[k] = 0.5 * dt * s.force(3 * n + 3 * i + k, q0); for (int t = 0; t < 3; ++t) p[k] += s.S(9 * i + 3 * k + t) * v0(3 * n + 3 * i + t); }
    for (int k = 0; k < 3; ++k) b[k] = R[k] * p[0] + R[3 + k] * p[1] + R[6 + k] * p[2];
    const int ax[5] = {2, 1, 0, 1, 2};
    for (int z = 0; z < 5; ++z) { about(ax[z], (z == 2 ? 1.0 : 0.5) * dt * b[ax[z]] / s.I(3 * i + ax[z]), Q); scalar c[3]; for (int k = 0; k < 3; ++k) c[k] = Q[k] * b[0] + Q[3 + k] * b[1] + Q[6 + k] * b[2]; for (int k = 0; k < 3; ++k) b[k] = c[k]; mul(R, Q, R); }
    for (int t = 0; t < 9; ++t) vc_eq(q1(3 * n + 9 * i + t), R[t], "rotation is the split-Hamiltonian composition of body-axis rotations (hence orthonormal)");
    for (int k = 0; k < 3; ++k) p[k] += 0.5 * dt * s.force(3 * n + 3 * i + k, q1);
    for (int t = 0; t < 9; ++t) R[t] = q1(3 * n + 9 * i + t);
    for (int k = 0; k < 3; ++k) b[k] = (R[k] * p[0] + R[3 + k] * p[1] + R[6 + k] * p[2]) / s.I(3 * i + k);
    for (int k = 0; k < 3; ++k) vc_eq(v1(3 * n + 3 * i + k), R[3 * k] * b[0] + R[3 * k + 1] * b[1] + R[3 * k + 2] * b[2], LM);
  }
  vc_cover("done");
}
VC(dmv)
{
  Run r; setup(r, vc_size("n", 0, 3), true); DMVMap map; map.flow(r.q0, r.v0, r.sim, unsigned(vc_int("it", 1, 1000)), r.dt, r.q1, r.v1); momenta(r);
  for (long i = 0; i < r.n; ++i) { const Matrix33sr R1 = rotOf(r.q1, r.n, i); orthonormal(R1); if (r.st.fixed[i]) continue;
    // discrete Moser-Veselov equation for the relative rotation with quaternion (1,c)
    const Matrix33sr R0 = r.st.rot(i); Vector3s L = R0 * r.st.I0[i].asDiagonal() * R0.transpose() * r.st.w[i]; for (int k = 0; k < 3; ++k) L(k) += 0.5 * r.dt * r.f->at(3 * r.n + 3 * i + k, r.q0); const Vector3s p = R0.transpose() * L;
    const Matrix33sr D = R0.transpose() * R1; const scalar t = 1 + D.trace(); Vector3s c{(D(2, 1) - D(1, 2)) / t, (D(0, 2) - D(2, 0)) / t, (D(1, 0) - D(0, 1)) / t}; const Vector3s& I = r.st.I0[i];
    vc_assume(p.norm() * r.dt / I.minCoeff() < 0.5);
    for (int k = 0; k < 3; ++k) { const int u = (k + 1) % 3, w = (k + 2) % 3; vc_eq(I(k) * c(k) - (I(u) - I(w)) * c(u) * c(w), 0.5 * r.dt * p(k) * (1 + c.squaredNorm()), "relative rotation satisfies the discrete Moser-Veselov equation"); }
  }
  vc_cover("done");
}
VC(expEuler)
{
  Run r; setup(r, vc_size("n", 0, 3), false); ExponentialEulerMap map; map.flow(r.q0, r.v0, r.sim, unsigned(vc_int("it", 1, 1000)), r.dt, r.q1, r.v1);
  for (long i = 0; i < r.n; ++i) {
    const Matrix33sr R0 = r.st.rot(i), R1 = rotOf(r.q1, r.n, i); orthonormal(R1); const Vector3s w = r.st.w[i]; Matrix33sr W; W << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
    // R1 is the nearest rotation to A = R0 + dt w x R0: R1^T A symmetric (and positive)
    const Matrix33sr A = R0 + r.dt * W * R0, S = R1.transpose() * A; for (int a = 0; a < 3; ++a) { for (int b = a + 1; b < 3; ++b) vc_eq(S(a, b), S(b, a), "orientation is the projection of the explicit update onto the rotations"); vc_assert(S(a, a) > 0, OR); }
    Vector3s T; for (int k = 0; k < 3; ++k) { const long d = 3 * i + k; vc_eq(r.q1(d), r.q0(d) + r.dt * r.v0(d), "q1 = q0 + dt v0"); vc_eq(r.v1(d), r.v0(d) + r.dt * r.f->at(d, r.q0) / r.st.M[i], "v1 = v0 + dt M^-1 F"); T(k) = r.f->at(3 * r.n + d, r.q0); }
    const Vector3s dw = R0 * (R0.transpose() * T).cwiseQuotient(r.st.I0[i]); for (int k = 0; k < 3; ++k) vc_eq(r.v1(3 * r.n + 3 * i + k), w(k) + r.dt * dw(k), "v1 = v0 + dt M^-1 F");
  }
  vc_cover("done");
}
// the inertial update: exact rotation about the (constant) angular velocity.  It is linear in the orientation, so the orientation may be any matrix.
VC(inertial)
{
  const long n = vc_size("n", 0, 3); const VectorXs q0 = vc_vecx("q0", 12 * n); VectorXs v0 = vc_vecx("v0", 6 * n), q1 = vc_vecx("q1", 12 * n); const scalar dt = vc_pos("dt"); std::vector<bool> fixed; std::vector<Vector3s> u; std::vector<scalar> W;
  for (long i = 0; i < n; ++i) { fixed.push_back(vc_bool("fixed") != 0); u.push_back(vc_unit3("axis")); W.push_back(vc_bool("spins") ? vc_pos("W") : 0.0); for (int k = 0; k < 3; ++k) v0(3 * n + 3 * i + k) = W[i] * u[i](k); }
  IntegrationTools::exponentialEuler(q0, v0, fixed, dt, q1);
  vc_eqi(q1.size(), 12 * n, FX);
  for (long i = 0; i < n; ++i) {
    if (fixed[i]) { for (int k = 0; k < 3; ++k) vc_eq(q1(3 * i + k), q0(3 * i + k), FX); for (int k = 0; k < 9; ++k) vc_eq(q1(3 * n + 9 * i + k), q0(3 * n + 9 * i + k), FX); continue; }
    for (int k = 0; k < 3; ++k) vc_eq(q1(3 * i + k), q0(3 * i + k) + dt * v0(3 * i + k), "centre of mass moves with the velocity");
    if (W[i] == 0) { for (int k = 0; k < 9; ++k) vc_eq(q1(3 * n + 9 * i + k), q0(3 * n + 9 * i + k), "no rotation without angular velocity"); continue; }
    const scalar c = std::cos(W[i] * dt), s = std::sin(W[i] * dt); const scalar* R0 = q0.data() + 3 * n + 9 * i;
    for (int j = 0; j < 3; ++j) { const scalar d = u[i](0) * R0[j] + u[i](1) * R0[3 + j] + u[i](2) * R0[6 + j]; // Rodrigues
      for (int k = 0; k < 3; ++k) { const int a = (k + 1) % 3, b = (k + 2) % 3; vc_eq(q1(3 * n + 9 * i + 3 * k + j), c * R0[3 * k + j] + s * (u[i](a) * R0[3 * b + j] - u[i](b) * R0[3 * a + j]) + (1 - c) * d * u[i](k), "orientation rotates by dt |w| about w"); } }
  }
  vc_cover("done");
}
VC(simInertial)
{
  const long n = vc_size("n", 0, 3); Rb3d st; makeBodies3d(st, n, 1); RigidBody3DSim sim; st.set(sim.getState()); const VectorXs q0 = vc_vecx("q0", 12 * n), v0 = vc_vecx("v0", 6 * n); VectorXs q1 = vc_vecx("q1", 12 * n), e = q1; const scalar dt = vc_pos("dt");
  if (!vc_native()) for (long i = 0; i < n; ++i) vc_assume(st.fixed[i] || v0(3 * n + 3 * i) != 0);
  sim.linearInertialConfigurationUpdate(q0, v0, dt, q1); IntegrationTools::exponentialEuler(q0, v0, st.fixed, dt, e); for (long i = 0; i < 12 * n; ++i) vc_eq(q1(i), e(i), "the system's inertial update leaves its fixed bodies in place and moves the others"); vc_cover("done");
}
// BOUND simInertial 1 2

#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
#include "rigidbody3d/PythonScripting.h"
// one unconstrained step of the system: its state becomes exactly what the integrator returns for the state it had
namespace { struct Any final : public UnconstrainedMap { VectorXs q, v, q0, v0; scalar dt; const FlowableSystem* sys = nullptr;
  virtual void flow(const VectorXs& a, const VectorXs& b, FlowableSystem& s, const unsigned, const scalar& h, VectorXs& q1, VectorXs& v1) override { q0 = a; v0 = b; dt = h; sys = &s; q1 = q; v1 = v; }
  virtual std::string name() const override { return "any"; } virtual void serialize(std::ostream&) const override {} }; }
#define FL "one step sets the state to the result of the integrator on the previous state"
// BOUND simFlow 2 3
VC(simFlow)
{
  const long n = vc_size("n", 0, 4); Rb3d b; makeBodies3d(b, n, 1); RigidBody3DSim sim; b.set(sim.getState()); auto& st = sim.getState(); st.setBoundaryBehavior(SimBoundaryBehavior::NONE); const VectorXs q0 = st.q(), v0 = st.v(); Any m; m.q = vc_vecx("qn", 12 * n); m.v = vc_vecx("vn", 6 * n);
  for (long i = 0; i < n; ++i) { const Matrix33sr R = vc_rot3("R1"); for (int k = 0; k < 9; ++k) m.q(3 * n + 9 * i + k) = R(k / 3, k % 3); }
  PythonScripting py; sim.flow(py, unsigned(vc_int("it", 1, 1000)), Rational<std::intmax_t>{1, 8}, m);
  vc_assert(m.sys == &static_cast<FlowableSystem&>(sim), FL); vc_eq(m.dt, 0.125, FL); vc_eqi(m.q0.size(), q0.size(), FL); vc_eqi(m.v0.size(), v0.size(), FL); vc_eqi(st.q().size(), q0.size(), FL); vc_eqi(st.v().size(), v0.size(), FL);
  for (long i = 0; i < 12 * n; ++i) { vc_eq(m.q0(i), q0(i), FL); vc_eq(st.q()(i), m.q(i), FL); } for (long i = 0; i < 6 * n; ++i) { vc_eq(m.v0(i), v0(i), FL); vc_eq(st.v()(i), m.v(i), FL); }
  RigidBody3DState e = st; e.updateMandMinv(); vc_eqi(e.M().nonZeros(), st.M().nonZeros(), "mass matrix follows the orientation"); for (long i = 0; i < e.M().nonZeros(); ++i) { vc_eq(st.M().valuePtr()[i], e.M().valuePtr()[i], "mass matrix follows the orientation"); vc_eq(st.Minv().valuePtr()[i], e.Minv().valuePtr()[i], "mass matrix follows the orientation"); }
  vc_cover("done");
}
