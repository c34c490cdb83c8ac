// one step of a 2D system with portals: the integrator, then every body inside a portal goes through it (Lees-Edwards portals also add the boundary velocity).
// D: degrees of freedom per body.  Included after c10_2d.h.
namespace { struct AnyI final : public UnconstrainedMap { VectorXs q, v;
  virtual void flow(const VectorXs&, const VectorXs&, FlowableSystem&, const unsigned, const scalar&, VectorXs& q1, VectorXs& v1) override { q1 = q; v1 = v; }
  virtual std::string name() const override { return "any"; } virtual void serialize(std::ostream&) const override {} }; }
#define SP "after a step every body inside a portal has gone through it, and no other body has been moved"
#define SO "portals move with their boundary velocity times the time at the end of the step"
template<int D, class Sim, class St> static void simPortals(Sim& sim, St& st, std::vector<PlanarPortal>& portals, long n)
{
  const long np = vc_choose("nportals", 3); std::vector<PlanarPortal> ref;
  for (long p = 0; p < np; ++p) { const auto A = plane("A"); const auto B = opposite(A, "Bx"); const int kind = int(vc_choose("kind", 2)); const scalar v = kind ? vc_real("pv") : 0.0, b = kind ? vc_pos("bounds") : 0.0; if (vc_native() && kind) vc_assume(b > 0.01); portals.emplace_back(A, B, v, b); ref.emplace_back(A, B, v, b); }
  AnyI m; m.q = vc_vecx("qn", D * n); m.v = vc_vecx("vn", D * n); const long it = vc_int("it", 1, 1000); PythonScripting py; VectorXs q = m.q, v = m.v;
  sim.flow(py, unsigned(it), Rational<std::intmax_t>{1, 8}, m);
  for (PlanarPortal& r : ref) r.updateMovingPortals(double(it) * 0.125);
  vc_eqi(long(portals.size()), np, SO);
  for (long p = 0; p < np; ++p) { vc_eq2(portals[size_t(p)].transformedAx(), ref[size_t(p)].transformedAx(), SO); vc_eq2(portals[size_t(p)].transformedBx(), ref[size_t(p)].transformedBx(), SO); }
  for (long p = 0; p < np; ++p) for (long i = 0; i < n; ++i) { const PlanarPortal& r = ref[size_t(p)]; const Vector2s x = q.segment<2>(D * i); const scalar da = r.planeA().n().dot(x - r.planeA().x()), db = r.planeB().n().dot(x - r.planeB().x()); vc_assume((da >= 0) | (db >= 0)); if (vc_native()) vc_assume((std::fabs(da) > 1e-9) & (std::fabs(db) > 1e-9));
    if ((da < 0) | (db < 0)) { Vector2s y; tele(r, x, !(da < 0), y); q.segment<2>(D * i) = y; v.segment<2>(D * i) += r.getKinematicVelocityOfPoint(x); } }
  vc_eqi(st.q().size(), D * n, SP); vc_eqi(st.v().size(), D * n, SP); for (long i = 0; i < D * n; ++i) vc_eq(st.q()(i), q(i), SP); for (long i = 0; i < D * n; ++i) vc_eq(st.v()(i), v(i), SP);
  vc_cover("done");
}
