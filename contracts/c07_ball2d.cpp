// Integrators of Ball2D systems (any force, any positive diagonal mass matrix).
#include "sys2d.h"
#include "ball2d/SymplecticEulerMap.h"
#include "ball2d/VerletMap.h"
// BOUND (euler|verletStep) 4 6
VC(euler) { Sys2d s{vc_size("n", 0, 8), 2, true}; symplectic<SymplecticEulerMap>(s); }
VC(verletStep) { Sys2d s{vc_size("n", 0, 8), 2, false}; verlet<VerletMap>(s); }

#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
#include "ball2d/PythonScripting.h"
#include "st_ball2d.h"
#include "ball2d/Ball2DSim.h"
// one unconstrained step of the system: its state becomes exactly what the integrator returns for the state it had
namespace { struct Any final : public UnconstrainedMap { VectorXs q, v, q0, v0; scalar dt; const FlowableSystem* sys = nullptr;
  virtual void flow(const VectorXs& a, const VectorXs& b, FlowableSystem& s, const unsigned, const scalar& h, VectorXs& q1, VectorXs& v1) override { q0 = a; v0 = b; dt = h; sys = &s; q1 = q; v1 = v; }
  virtual std::string name() const override { return "any"; } virtual void serialize(std::ostream&) const override {} }; }
#define FL "one step sets the state to the result of the integrator on the previous state"
// BOUND simFlow 2 3
VC(simFlow)
{
  const long n = vc_size("n", 0, 4); Ball2DSim sim; makeBalls(sim.state(), n); auto& st = sim.state(); const VectorXs q0 = st.q(), v0 = st.v(); Any m; m.q = vc_vecx("qn", 2 * n); m.v = vc_vecx("vn", 2 * n);
  PythonScripting py; sim.flow(py, unsigned(vc_int("it", 1, 1000)), Rational<std::intmax_t>{1, 8}, m);
  vc_assert(m.sys == &static_cast<FlowableSystem&>(sim), FL); vc_eq(m.dt, 0.125, FL); vc_eqi(m.q0.size(), q0.size(), FL); vc_eqi(m.v0.size(), v0.size(), FL); vc_eqi(st.q().size(), q0.size(), FL); vc_eqi(st.v().size(), v0.size(), FL);
  for (long i = 0; i < 2 * n; ++i) { vc_eq(m.q0(i), q0(i), FL); vc_eq(st.q()(i), m.q(i), FL); } for (long i = 0; i < 2 * n; ++i) { vc_eq(m.v0(i), v0(i), FL); vc_eq(st.v()(i), m.v(i), FL); }
  vc_cover("done");
}
