// Forces, potentials, energies and momenta of RigidBody2D systems.
#include "st_rb2d.h"
#include "rigidbody2d/RigidBody2DSim.h"
// BOUND (gravity|reports|simForce|momentumOf|inertial) 3 4
#define GR "the force is minus the gradient of the potential"
#define AC "forces are accumulated onto the force already present"
#define RP "reported energy or momentum equals its defining sum"
#define SF "computeForce is the sum of the forces at the given configuration and velocity"
namespace {
struct Probe final : public RigidBody2DForce {
  scalar a, b; Probe(scalar a_, scalar b_) : a(a_), b(b_) {}
  virtual scalar computePotential(const VectorXs& q, const SparseMatrixsc& M) const override { scalar U = 0; for (long i = 0; i < q.size(); ++i) U += a * M.valuePtr()[i] * q(i); return U; }
  virtual void computeForce(const VectorXs& q, const VectorXs& v, const SparseMatrixsc& M, VectorXs& F) const override { for (long i = 0; i < q.size(); ++i) F(i) += a * q(i) + b * v(i) + M.valuePtr()[i]; }
  virtual std::unique_ptr<RigidBody2DForce> clone() const override { return std::unique_ptr<RigidBody2DForce>{new Probe{a, b}}; }
  virtual void serialize(std::ostream&) const override {}
};
}
VC(gravity)
{
  const long n = vc_size("n", 0, 8); const RigidBody2DState s = makeBodies2d(n, 1).state(); const Vector2s g = vc_vec2("g"); const NearEarthGravityForce f{g};
  const VectorXs q = vc_vecx("qq", 3 * n), v = vc_vecx("vv", 3 * n), F0 = vc_vecx("F0", 3 * n); VectorXs F = F0; f.computeForce(q, v, s.M(), F);
  vc_eqi(F.size(), 3 * n, AC);
  scalar U = 0; for (long i = 0; i < n; ++i) { const scalar m = s.m(unsigned(i)); U -= m * (g(0) * q(3 * i) + g(1) * q(3 * i + 1)); vc_eq(F(3 * i), F0(3 * i) + m * g(0), AC); vc_eq(F(3 * i + 1), F0(3 * i + 1) + m * g(1), AC); vc_eq(F(3 * i + 2), F0(3 * i + 2), AC); }
  vc_eq(f.computePotential(q, s.M()), U, "gravitational potential energy is -sum m g.x");
  if (n) { const long k = vc_choose("k", 3 * n); const scalar h = vc_real("h"); VectorXs p = q; p(k) += h; vc_eq(f.computePotential(p, s.M()) - f.computePotential(q, s.M()), -h * (F(k) - F0(k)), GR); }
  vc_cover("done");
}
VC(reports)
{
  const long n = vc_size("n", 0, 8); Rb2d st = makeBodies2d(n, 1); const Vector2s g = vc_vec2("g"); const scalar a = vc_real("a"), b = vc_real("b"); st.forces.emplace_back(new NearEarthGravityForce{g}); st.forces.emplace_back(new Probe{a, b});
  RigidBody2DSim sim; sim.state() = st.state(); scalar T = 0, U = 0, L = 0; Vector2s p(0, 0);
  for (long i = 0; i < n; ++i) { const scalar m = st.m(3 * i), I = st.m(3 * i + 2), x = st.q(3 * i), y = st.q(3 * i + 1), vx = st.v(3 * i), vy = st.v(3 * i + 1), w = st.v(3 * i + 2);
    T += 0.5 * m * (vx * vx + vy * vy) + 0.5 * I * w * w; U += -m * (g(0) * x + g(1) * y) + a * (m * x + m * y + I * st.q(3 * i + 2)); p(0) += m * vx; p(1) += m * vy; L += m * (x * vy - y * vx) + I * w; }
  vc_eq(sim.computeKineticEnergy(), T, RP); vc_eq(sim.computePotentialEnergy(), U, RP); vc_eq(sim.computeTotalEnergy(), T + U, RP); vc_eq2(sim.computeTotalMomentum(), p, RP); vc_eq(sim.computeTotalAngularMomentum(), L, RP);
  vc_cover("done");
}
VC(momentumOf)
{
  const long n = vc_size("n", 0, 8); const Rb2d st = makeBodies2d(n, 1); RigidBody2DSim sim; sim.state() = st.state(); const VectorXs v = vc_vecx("vv", 3 * n); scalar L = 0; Vector2s p(0, 0);
  for (long i = 0; i < n; ++i) { const scalar m = st.m(3 * i); p(0) += m * v(3 * i); p(1) += m * v(3 * i + 1); L += m * (st.q(3 * i) * v(3 * i + 1) - st.q(3 * i + 1) * v(3 * i)) + st.m(3 * i + 2) * v(3 * i + 2); }
  VectorXs P, Q; sim.computeMomentum(v, P); sim.computeAngularMomentum(v, Q); vc_eqi(P.size(), 2, RP); vc_eqi(Q.size(), 1, RP); vc_eq(P(0), p(0), RP); vc_eq(P(1), p(1), RP); vc_eq(Q(0), L, RP);
  vc_cover("done");
}
VC(simForce)
{
  const long n = vc_size("n", 0, 8); Rb2d st = makeBodies2d(n, 1); const Vector2s g = vc_vec2("g"); const scalar a = vc_real("a"), b = vc_real("b");
  const long nf = vc_choose("nf", 3); if (nf > 0) st.forces.emplace_back(new Probe{a, b}); if (nf > 1) st.forces.emplace_back(new NearEarthGravityForce{g}); RigidBody2DSim sim; sim.state() = st.state();
  const VectorXs q = vc_vecx("qq", 3 * n), v = vc_vecx("vv", 3 * n); VectorXs F = vc_vecx("F0", 3 * n); sim.computeForce(q, v, vc_real("t"), F);
  vc_eqi(F.size(), 3 * n, SF);
  for (long i = 0; i < 3 * n; ++i) vc_eq(F(i), (nf > 0 ? a * q(i) + b * v(i) + st.m(i) : 0) + (nf > 1 && i % 3 < 2 ? st.m(i) * g(i % 3) : 0), SF);
  vc_cover("done");
}
VC(inertial)
{
  const long n = vc_size("n", 0, 8); RigidBody2DSim sim; sim.state() = makeBodies2d(n, 1).state(); const VectorXs q = vc_vecx("qq", 3 * n), v = vc_vecx("vv", 3 * n); VectorXs q1 = vc_vecx("q1", 3 * n); const scalar dt = vc_pos("dt"); sim.linearInertialConfigurationUpdate(q, v, dt, q1);
  vc_eqi(q1.size(), 3 * n, "inertial update"); for (long i = 0; i < 3 * n; ++i) vc_eq(q1(i), q(i) + dt * v(i), "inertial update moves each body with its velocity"); vc_cover("done");
}
