// Integrators of RigidBody2D systems (any force, any positive diagonal mass matrix, any set of scripted bodies).
#include "sys2d.h"
#include "rigidbody2d/SymplecticEulerMap.h"
#include "rigidbody2d/VerletMap.h"
// BOUND (euler|verletStep) 3 4
VC(euler) { const long n = vc_size("n", 0, 8); Sys2d s{n, 3, true}; for (long i = 0; i < n; ++i) s.fixed[i] = vc_bool("fixed") != 0; symplectic<SymplecticEulerMap>(s); }
VC(verletStep) { const long n = vc_size("n", 0, 8); Sys2d s{n, 3, false}; for (long i = 0; i < n; ++i) s.fixed[i] = vc_bool("fixed") != 0; verlet<VerletMap>(s); }

#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
#include "rigidbody2d/PythonScripting.h"
#include "st_rb2d.h"
#include "rigidbody2d/RigidBody2DSim.h"
// one unconstrained step of the system: its state becomes exactly what the integrator returns for the state it had
namespace { struct Any final : public UnconstrainedMap { VectorXs q, v, q0, v0; scalar dt; const FlowableSystem* sys = nullptr;
  virtual void flow(const VectorXs& a, const VectorXs& b, FlowableSystem& s, const unsigned, const scalar& h, VectorXs& q1, VectorXs& v1) override { q0 = a; v0 = b; dt = h; sys = &s; q1 = q; v1 = v; }
  virtual std::string name() const override { return "any"; } virtual void serialize(std::ostream&) const override {} }; }
#define FL "one step sets the state to the result of the integrator on the previous state"
// BOUND simFlow 2 3
VC(simFlow)
{
  const long n = vc_size("n", 0, 4); RigidBody2DSim sim; sim.state() = makeBodies2d(n, 1).state(); auto& st = sim.state(); const VectorXs q0 = st.q(), v0 = st.v(); Any m; m.q = vc_vecx("qn", 3 * n); m.v = vc_vecx("vn", 3 * n);
  PythonScripting py; sim.flow(py, unsigned(vc_int("it", 1, 1000)), Rational<std::intmax_t>{1, 8}, m);
  vc_assert(m.sys == &static_cast<FlowableSystem&>(sim), FL); vc_eq(m.dt, 0.125, FL); vc_eqi(m.q0.size(), q0.size(), FL); vc_eqi(m.v0.size(), v0.size(), FL); vc_eqi(st.q().size(), q0.size(), FL); vc_eqi(st.v().size(), v0.size(), FL);
  for (long i = 0; i < 3 * n; ++i) { vc_eq(m.q0(i), q0(i), FL); vc_eq(st.q()(i), m.q(i), FL); } for (long i = 0; i < 3 * n; ++i) { vc_eq(m.v0(i), v0(i), FL); vc_eq(st.v()(i), m.v(i), FL); }
  vc_cover("done");
}
