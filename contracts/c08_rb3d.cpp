// Forces, potentials, energies and momenta of RigidBody3D systems.
#include "st_rb3d.h"
#include "rigidbody3d/RigidBody3DSim.h"
// BOUND (gravity|simForce|zeroOut) 2 3
// BOUND (reports|momentumOf) 2 2
#define GR "the force is minus the gradient of the potential"
#define AC "forces are accumulated onto the force already present"
#define RP "reported energy or momentum equals its defining sum"
#define SF "computeForce is the sum of the forces at the given configuration and velocity"
namespace {
struct Probe final : public Force {
  scalar a, b; Probe(scalar a_, scalar b_) : a(a_), b(b_) {}
  virtual scalar computePotential(const VectorXs& q, const SparseMatrixsc& M) const override { scalar U = 0; for (long i = 0; i < q.size(); ++i) U += a * q(i); return U; }
  virtual void computeForce(const VectorXs& q, const VectorXs& v, const SparseMatrixsc& M, VectorXs& F) const override { for (long i = 0; i < v.size(); ++i) F(i) += a * q(2 * i) + b * v(i) + M.valuePtr()[i / 2]; }
  virtual std::string name() const override { return "probe"; }
  virtual std::unique_ptr<Force> clone() const override { return std::unique_ptr<Force>{new Probe{a, b}}; }
  virtual void serialize(std::ostream&) const override {}
};
}
VC(gravity)
{
  const long n = vc_size("n", 0, 5); Rb3d st; makeBodies3d(st, n, 1); RigidBody3DState s; st.set(s); const Vector3s g = vc_vec3("g"); NearEarthGravityForce f{vc_vec3("g0")}; f.setForce(g);
  const VectorXs q = vc_vecx("qq", 12 * n), v = vc_vecx("vv", 6 * n), F0 = vc_vecx("F0", 6 * n); VectorXs F = F0; f.computeForce(q, v, s.M(), F);
  vc_eqi(F.size(), 6 * n, AC);
  scalar U = 0; for (long i = 0; i < n; ++i) { const scalar m = st.M[i]; for (long k = 0; k < 3; ++k) { U -= m * g(k) * q(3 * i + k); vc_eq(F(3 * i + k), F0(3 * i + k) + m * g(k), AC); vc_eq(F(3 * n + 3 * i + k), F0(3 * n + 3 * i + k), AC); } }
  vc_eq(f.computePotential(q, s.M()), U, "gravitational potential energy is -sum m g.x");
  if (n) { const long k = vc_choose("k", 3 * n); const scalar h = vc_real("h"); VectorXs p = q; p(k) += h; vc_eq(f.computePotential(p, s.M()) - f.computePotential(q, s.M()), -h * (F(k) - F0(k)), GR); }
  vc_cover("done");
}
// spatial inertia R I0 R^T applied to w
static Vector3s spin(const Rb3d& st, long i, const Vector3s& w)
{
  const Matrix33sr R = st.rot(i); scalar b[3], o[3];
  for (int k = 0; k < 3; ++k) b[k] = st.I0[i](k) * (R(0, k) * w(0) + R(1, k) * w(1) + R(2, k) * w(2));
  for (int k = 0; k < 3; ++k) o[k] = R(k, 0) * b[0] + R(k, 1) * b[1] + R(k, 2) * b[2];
  return Vector3s(o[0], o[1], o[2]);
}
VC(reports)
{
  const long n = vc_size("n", 0, 5); Rb3d st; makeBodies3d(st, n, 1); RigidBody3DSim sim; st.set(sim.getState()); const Vector3s g = vc_vec3("g"); const scalar a = vc_real("a"); sim.getState().addForce(NearEarthGravityForce{g}); sim.getState().addForce(Probe{a, 0.0});
  scalar T = 0, U = 0; Vector3s p(0, 0, 0), L(0, 0, 0);
  for (long i = 0; i < n; ++i) {
    const scalar m = st.M[i]; const Vector3s &x = st.X[i], &v = st.V[i]; const Vector3s Iw = spin(st, i, st.w[i]);
    for (int k = 0; k < 3; ++k) { T += 0.5 * m * v(k) * v(k) + 0.5 * Iw(k) * st.w[i](k); U += -m * g(k) * x(k) + a * x(k); p(k) += m * v(k); L(k) += m * (x((k + 1) % 3) * v((k + 2) % 3) - x((k + 2) % 3) * v((k + 1) % 3)) + Iw(k); }
    for (int k = 0; k < 9; ++k) U += a * st.R[i](k);
  }
  vc_eq(sim.computeKineticEnergy(), T, RP); vc_eq(sim.computePotentialEnergy(), U, RP); vc_eq(sim.computeTotalEnergy(), T + U, RP); vc_eq3(sim.computeTotalMomentum(), p, RP); vc_eq3(sim.computeTotalAngularMomentum(), L, RP);
  vc_cover("done");
}
VC(momentumOf)
{
  const long n = vc_size("n", 0, 5); Rb3d st; makeBodies3d(st, n, 1); RigidBody3DSim sim; st.set(sim.getState()); const VectorXs v = vc_vecx("vv", 6 * n); Vector3s p(0, 0, 0), L(0, 0, 0);
  for (long i = 0; i < n; ++i) {
    const scalar m = st.M[i]; const Vector3s& x = st.X[i]; const Vector3s Iw = spin(st, i, Vector3s(v(3 * n + 3 * i), v(3 * n + 3 * i + 1), v(3 * n + 3 * i + 2)));
    for (int k = 0; k < 3; ++k) { p(k) += m * v(3 * i + k); L(k) += m * (x((k + 1) % 3) * v(3 * i + (k + 2) % 3) - x((k + 2) % 3) * v(3 * i + (k + 1) % 3)) + Iw(k); }
  }
  VectorXs P, Q; sim.computeMomentum(v, P); sim.computeAngularMomentum(v, Q); vc_eqi(P.size(), 3, RP); vc_eqi(Q.size(), 3, RP); for (int k = 0; k < 3; ++k) { vc_eq(P(k), p(k), RP); vc_eq(Q(k), L(k), RP); }
  vc_cover("done");
}
VC(simForce)
{
  const long n = vc_size("n", 0, 5); Rb3d st; makeBodies3d(st, n, 1); RigidBody3DSim sim; st.set(sim.getState()); const Vector3s g = vc_vec3("g"); const scalar a = vc_real("a"), b = vc_real("b");
  const long nf = vc_choose("nf", 3); if (nf > 0) sim.getState().addForce(Probe{a, b}); if (nf > 1) sim.getState().addForce(NearEarthGravityForce{g});
  const VectorXs q = vc_vecx("qq", 12 * n), v = vc_vecx("vv", 6 * n); VectorXs F = vc_vecx("F0", 6 * n); sim.computeForce(q, v, vc_real("t"), F);
  vc_eqi(F.size(), 6 * n, SF);
  for (long i = 0; i < 6 * n; ++i) vc_eq(F(i), (nf > 0 ? a * q(2 * i) + b * v(i) + st.M[i / 6] : 0) + (nf > 1 && i < 3 * n ? st.M[i / 3] * g(i % 3) : 0), SF);
  vc_cover("done");
}
VC(zeroOut)
{
  const long n = vc_size("n", 0, 5); Rb3d st; makeBodies3d(st, n, 1); RigidBody3DSim sim; st.set(sim.getState()); const VectorXs F0 = vc_vecx("F0", 6 * n); VectorXs F = F0; sim.zeroOutForcesOnFixedBodies(F); vc_eqi(F.size(), 6 * n, AC);
  for (long i = 0; i < 6 * n; ++i) vc_eq(F(i), st.fixed[(i / 3) % n] ? 0.0 : F0(i), "forces on fixed bodies, and only those, are zeroed");
  vc_cover("done");
}
