// Forces, potentials, energies and momenta of Ball2D systems.
#include "st_ball2d.h"
#include "ball2d/Ball2DSim.h"
#include <cmath>
// BOUND (gravity|reports|simForce|zeroOut|inertial) 3 4
// BOUND penalty 3 3
#define GR "the force is minus the gradient of the potential"
#define AC "forces are accumulated onto the force already present"
#define RP "reported energy or momentum equals its defining sum"
#define SF "computeForce is the sum of the forces at the given configuration and velocity"
namespace {
// an arbitrary configuration- and velocity-dependent force
struct Probe final : public Ball2DForce {
  scalar a, b; Probe(scalar a_, scalar b_) : a(a_), b(b_) {}
  virtual scalar computePotential(const VectorXs& q, const SparseMatrixsc& M, const VectorXs& r) const override { scalar U = 0; for (long i = 0; i < q.size(); ++i) U += a * M.valuePtr()[i] * q(i) + b * r(i / 2); return U; }
  virtual void computeForce(const VectorXs& q, const VectorXs& v, const SparseMatrixsc& M, const VectorXs& r, VectorXs& F) const override { for (long i = 0; i < q.size(); ++i) F(i) += a * q(i) + b * v(i) + M.valuePtr()[i] * r(i / 2); }
  virtual std::unique_ptr<Ball2DForce> clone() const override { return std::unique_ptr<Ball2DForce>{new Probe{a, b}}; }
  virtual void serialize(std::ostream&) const override {}
};
}
VC(gravity)
{
  const long n = vc_size("n", 0, 8); Ball2DState s; makeBalls(s, n); const Vector2s g = vc_vec2("g"); const Ball2DGravityForce f{g};
  const VectorXs q = vc_vecx("qq", 2 * n), v = vc_vecx("vv", 2 * n), F0 = vc_vecx("F0", 2 * n); VectorXs F = F0; f.computeForce(q, v, s.M(), s.r(), F);
  vc_eqi(F.size(), 2 * n, AC);
  scalar U = 0; for (long i = 0; i < n; ++i) { const scalar m = s.M().valuePtr()[2 * i]; U -= m * (g(0) * q(2 * i) + g(1) * q(2 * i + 1)); vc_eq(F(2 * i), F0(2 * i) + m * g(0), AC); vc_eq(F(2 * i + 1), F0(2 * i + 1) + m * g(1), AC); }
  vc_eq(f.computePotential(q, s.M(), s.r()), U, "gravitational potential energy is -sum m g.x");
  if (n) { const long k = vc_choose("k", 2 * n); const scalar h = vc_real("h"); VectorXs p = q; p(k) += h; vc_eq(f.computePotential(p, s.M(), s.r()) - f.computePotential(q, s.M(), s.r()), -h * (F(k) - F0(k)), GR); }
  vc_cover("done");
}
VC(penalty)
{
  const long n = vc_size("n", 0, 5); Ball2DState s; makeBalls(s, n); const scalar k = vc_pos("k"), p = vc_pos("pow"); const PenaltyForce f{k, p}; vc_assume(p >= 1); if (vc_native()) vc_assume(p <= 6);
  const VectorXs q = vc_vecx("qq", 2 * n), v = vc_vecx("vv", 2 * n), F0 = vc_vecx("F0", 2 * n); VectorXs F = F0, E = F0; scalar U = 0;
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) {
    const Vector2s x = q.segment<2>(2 * j) - q.segment<2>(2 * i); const scalar R = s.r()(i) + s.r()(j), d2 = x.squaredNorm(); vc_assume(d2 > 0); vc_assume(d2 != R * R);
    if (d2 < R * R) { const scalar d = std::sqrt(d2), c = 0.5 * k * p * std::pow(R - d, p - 1) / d; U += 0.5 * k * std::pow(R - d, p);
      for (long t = 0; t < 2; ++t) { E(2 * j + t) += c * x(t); E(2 * i + t) -= c * x(t); } }
  }
  f.computeForce(q, v, s.M(), s.r(), F); vc_eqi(F.size(), 2 * n, AC);
  for (long i = 0; i < 2 * n; ++i) vc_eq(F(i), E(i), "penalty force is 1/2 k p depth^(p-1) along the line of centres, on overlapping balls only");
  scalar X = 0, Y = 0, L = 0, S = 1; if (vc_native()) for (long i = 0; i < 2 * n; ++i) S += std::abs(F(i)) * (1 + q.lpNorm<1>()); // rounding scale
  for (long i = 0; i < n; ++i) { const scalar x = F(2 * i) - F0(2 * i), y = F(2 * i + 1) - F0(2 * i + 1); X += x; Y += y; L += q(2 * i) * y - q(2 * i + 1) * x; }
  vc_eq(X / S, 0, "penalty forces are equal and opposite"); vc_eq(Y / S, 0, "penalty forces are equal and opposite"); if (n <= 2 || vc_native()) vc_eq(L / S, 0, "penalty forces are central");
  vc_eq(f.computePotential(q, s.M(), s.r()), U, "penalty potential is 1/2 k depth^p over the overlapping pairs");
  vc_cover("done");
}
VC(reports)
{
  const long n = vc_size("n", 0, 8); Ball2DSim sim; Ball2DState& s = sim.state(); makeBalls(s, n); const Vector2s g = vc_vec2("g"); s.forces().emplace_back(new Ball2DGravityForce{g}); const scalar a = vc_real("a"), b = vc_real("b"); s.forces().emplace_back(new Probe{a, b});
  scalar T = 0, U = 0, L = 0; Vector2s p(0, 0);
  for (long i = 0; i < n; ++i) { const scalar m = s.M().valuePtr()[2 * i], x = s.q()(2 * i), y = s.q()(2 * i + 1), vx = s.v()(2 * i), vy = s.v()(2 * i + 1);
    T += 0.5 * m * (vx * vx + vy * vy); U += -m * (g(0) * x + g(1) * y) + a * m * (x + y) + 2 * b * s.r()(i); p(0) += m * vx; p(1) += m * vy; L += m * (x * vy - y * vx); }
  const Ball2DState& c = s; vc_eq(c.computeKineticEnergy(), T, RP); vc_eq(c.computePotentialEnergy(), U, RP); vc_eq(c.computeTotalEnergy(), T + U, RP); vc_eq2(c.computeMomentum(), p, RP); vc_eq(c.computeAngularMomentum(), L, RP);
  VectorXs P, Q; sim.computeMomentum(s.v(), P); sim.computeAngularMomentum(s.v(), Q); vc_eqi(P.size(), 2, RP); vc_eqi(Q.size(), 1, RP); vc_eq(P(0), p(0), RP); vc_eq(P(1), p(1), RP); vc_eq(Q(0), L, RP);
  vc_cover("done");
}
// ... for a velocity other than the stored one
VC(momentumOf)
{
  const long n = vc_size("n", 0, 8); Ball2DSim sim; Ball2DState& s = sim.state(); makeBalls(s, n); const VectorXs v = vc_vecx("vv", 2 * n); scalar L = 0; Vector2s p(0, 0);
  for (long i = 0; i < n; ++i) { const scalar m = s.M().valuePtr()[2 * i]; p(0) += m * v(2 * i); p(1) += m * v(2 * i + 1); L += m * (s.q()(2 * i) * v(2 * i + 1) - s.q()(2 * i + 1) * v(2 * i)); }
  VectorXs P, Q; sim.computeMomentum(v, P); sim.computeAngularMomentum(v, Q); vc_eqi(P.size(), 2, RP); vc_eqi(Q.size(), 1, RP); vc_eq(P(0), p(0), RP); vc_eq(P(1), p(1), RP); vc_eq(Q(0), L, RP);
  vc_cover("done");
}
// BOUND momentumOf 3 4
VC(simForce)
{
  const long n = vc_size("n", 0, 8); Ball2DSim sim; Ball2DState& s = sim.state(); makeBalls(s, n); const Vector2s g = vc_vec2("g"); const scalar a = vc_real("a"), b = vc_real("b");
  const long nf = vc_choose("nf", 3); if (nf > 0) s.forces().emplace_back(new Probe{a, b}); if (nf > 1) s.forces().emplace_back(new Ball2DGravityForce{g});
  const VectorXs q = vc_vecx("qq", 2 * n), v = vc_vecx("vv", 2 * n), F0 = vc_vecx("F0", 2 * n); VectorXs F = F0; sim.computeForce(q, v, vc_real("t"), F); VectorXs A = F0; s.accumulateForce(q, v, A);
  vc_eqi(F.size(), 2 * n, SF);
  for (long i = 0; i < 2 * n; ++i) { const scalar m = s.M().valuePtr()[i], e = (nf > 0 ? a * q(i) + b * v(i) + m * s.r()(i / 2) : 0) + (nf > 1 ? m * g(i % 2) : 0); vc_eq(F(i), e, SF); vc_eq(A(i), F0(i) + e, AC); }
  vc_cover("done");
}
VC(zeroOut)
{
  const long n = vc_size("n", 0, 8); Ball2DSim sim; Ball2DState& s = sim.state(); makeBalls(s, n); const VectorXs F0 = vc_vecx("F0", 2 * n); VectorXs F = F0; sim.zeroOutForcesOnFixedBodies(F); vc_eqi(F.size(), 2 * n, AC);
  for (long i = 0; i < 2 * n; ++i) vc_eq(F(i), sim.isKinematicallyScripted(int(i / 2)) ? 0.0 : F0(i), "forces on scripted bodies, and only those, are zeroed");
  vc_cover("done");
}
VC(inertial)
{
  const long n = vc_size("n", 0, 8); Ball2DSim sim; makeBalls(sim.state(), n); const VectorXs q = vc_vecx("qq", 2 * n), v = vc_vecx("vv", 2 * n); VectorXs q1 = vc_vecx("q1", 2 * n); const scalar dt = vc_pos("dt"); sim.linearInertialConfigurationUpdate(q, v, dt, q1);
  vc_eqi(q1.size(), 2 * n, "inertial update"); for (long i = 0; i < 2 * n; ++i) vc_eq(q1(i), q(i) + dt * v(i), "inertial update moves each body with its velocity"); vc_cover("done");
}
