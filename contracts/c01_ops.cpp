// BOUND (geometricMap|stabilizedMap|symplecticMap) 2 3
// Round trip of every solver and map a checkpoint can name, through the same entry points the command line tools use.
// DEF QL_FOUND
#include "ser.h"
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQL.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/FrictionMaps/LinearMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/GRRFriction.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include <typeinfo>
namespace CMU = ConstrainedMapUtilities;
VC_FIELD(m_v_tol) VC_FIELD(m_tol) VC_FIELD(m_max_iters) VC_FIELD(m_disk_samples) VC_FIELD(m_warm_start) VC_FIELD(m_warm_start_alpha) VC_FIELD(m_warm_start_beta) VC_FIELD(m_abs_tol) VC_FIELD(m_impulses_to_cache)
VC_FIELD(m_stabilize) VC_FIELD(m_penetration_threshold) VC_FIELD(m_external_warm_start_alpha) VC_FIELD(m_external_warm_start_beta) VC_FIELDA(m_f)
#define SUB(f) \
  template <class T> auto sub_##f(const T& a, const T& b, int) -> decltype(a.f == b.f, void()) { same(a.f, b.f); } \
  template <class T> void sub_##f(const T&, const T&, long) {}
static void same(const std::unique_ptr<ImpactOperator>& a, const std::unique_ptr<ImpactOperator>& b);
static void same(const std::unique_ptr<FrictionOperator>& a, const std::unique_ptr<FrictionOperator>& b);
SUB(m_impact_operator) SUB(m_friction_operator) SUB(m_elastic_operator) SUB(m_inelastic_operator)
template <class T> auto set_f(T& m, const VectorXs& f, int) -> decltype(m.m_f = f, void()) { m.m_f = f; }
template <class T> void set_f(T&, const VectorXs&, long) {}
template <class T> static void fields(const T& a, const T& b)
{
  VC_CMPF(m_v_tol, a, b); VC_CMPF(m_tol, a, b); VC_CMPF(m_max_iters, a, b); VC_CMPF(m_disk_samples, a, b); VC_CMPF(m_warm_start, a, b); VC_CMPF(m_warm_start_alpha, a, b); VC_CMPF(m_warm_start_beta, a, b);
  VC_CMPF(m_abs_tol, a, b); VC_CMPF(m_impulses_to_cache, a, b); VC_CMPF(m_stabilize, a, b); VC_CMPF(m_penetration_threshold, a, b); VC_CMPF(m_external_warm_start_alpha, a, b); VC_CMPF(m_external_warm_start_beta, a, b); VC_CMPF(m_f, a, b);
  sub_m_impact_operator(a, b, 0); sub_m_friction_operator(a, b, 0); sub_m_elastic_operator(a, b, 0); sub_m_inelastic_operator(a, b, 0);
}
template <class T, class B> static bool as(const B& a, const B& b) { if (typeid(a) != typeid(T)) return false; fields(static_cast<const T&>(a), static_cast<const T&>(b)); return true; }
static void same(const std::unique_ptr<ImpactOperator>& a, const std::unique_ptr<ImpactOperator>& b)
{
  vc_assert((a == nullptr) == (b == nullptr), VC_SAME);
  if (!a) return;
  vc_assert(typeid(*a) == typeid(*b), VC_SAME); vc_same(a->name(), b->name(), VC_SAME);
  as<GaussSeidelOperator>(*a, *b) || as<GROperator>(*a, *b) || as<GRROperator>(*a, *b) || as<LCPOperatorAPGD>(*a, *b) || as<LCPOperatorQL>(*a, *b);
}
static void same(const std::unique_ptr<FrictionOperator>& a, const std::unique_ptr<FrictionOperator>& b)
{
  vc_assert((a == nullptr) == (b == nullptr), VC_SAME);
  if (!a) return;
  vc_assert(typeid(*a) == typeid(*b), VC_SAME); vc_same(a->name(), b->name(), VC_SAME);
  as<LinearMDPOperatorQL>(*a, *b) || as<BoundConstrainedMDPOperatorQL>(*a, *b);
}
static void same(const std::unique_ptr<FrictionSolver>& a, const std::unique_ptr<FrictionSolver>& b)
{
  vc_assert((a == nullptr) == (b == nullptr), VC_SAME);
  if (!a) return;
  vc_assert(typeid(*a) == typeid(*b), VC_SAME); vc_same(a->name(), b->name(), VC_SAME);
  as<StaggeredProjections>(*a, *b) || as<GRRFriction>(*a, *b);
}
static void same(const std::unique_ptr<ImpactFrictionMap>& a, const std::unique_ptr<ImpactFrictionMap>& b)
{
  vc_assert((a == nullptr) == (b == nullptr), VC_SAME);
  if (!a) return;
  vc_assert(typeid(*a) == typeid(*b), VC_SAME); vc_same(a->name(), b->name(), VC_SAME);
  as<GeometricImpactFrictionMap>(*a, *b) || as<StabilizedImpactFrictionMap>(*a, *b) || as<SymplecticEulerImpactFrictionMap>(*a, *b);
}
static std::unique_ptr<ImpactOperator> leaf()
{
  switch (vc_choose("leaf", 3)) {
    case 0: return std::unique_ptr<ImpactOperator>{new GaussSeidelOperator{vc_pos("vtol")}};
    case 1: return std::unique_ptr<ImpactOperator>{new LCPOperatorAPGD{vc_pos("tol"), unsigned(vc_int("iters", 0, 100000))}};
    default: return std::unique_ptr<ImpactOperator>{new LCPOperatorQL{vc_pos("eps")}};
  }
}
static std::unique_ptr<ImpactOperator> impact()
{
  switch (vc_choose("impact", 3)) {
    case 0: return leaf();
    case 1: return std::unique_ptr<ImpactOperator>{new GROperator{vc_pos("grtol"), *leaf()}};
    default: { const std::unique_ptr<ImpactOperator> e = leaf(); return std::unique_ptr<ImpactOperator>{new GRROperator{*e, *leaf()}}; }
  }
}
static std::unique_ptr<FrictionOperator> friction()
{
  if (vc_bool("linear")) return std::unique_ptr<FrictionOperator>{new LinearMDPOperatorQL{int(vc_int("disk", 2, 64)), vc_pos("ftol")}};
  return std::unique_ptr<FrictionOperator>{new BoundConstrainedMDPOperatorQL{vc_pos("ftol")}};
}
VC(impactOperator) { const std::unique_ptr<ImpactOperator> a = vc_bool("none") ? nullptr : impact(); CMU::serialize(a, vc_os(1)); const auto b = CMU::deserializeImpactOperator(vc_is(1)); vc_stream_done(1); same(a, b); vc_cover("done"); }
VC(impactClone) { const std::unique_ptr<ImpactOperator> a = impact(); const auto b = a->clone(); same(a, b); vc_cover("done"); }
VC(frictionOperator) { const std::unique_ptr<FrictionOperator> a = vc_bool("none") ? nullptr : friction(); CMU::serialize(a, vc_os(1)); const auto b = CMU::deserializeFrictionOperator(vc_is(1)); vc_stream_done(1); same(a, b); vc_cover("done"); }
VC(frictionClone) { const std::unique_ptr<FrictionOperator> a = friction(); const auto b = a->clone(); same(a, b); vc_cover("done"); }
VC(frictionSolver)
{
  std::unique_ptr<FrictionSolver> a;
  switch (vc_choose("solver", 3)) {
    case 0: { const auto i = leaf(); const auto f = friction(); a.reset(new StaggeredProjections{vc_bool("wa") != 0, vc_bool("wb") != 0, *i, *f}); break; }
    case 1: { const auto i = leaf(); const auto f = friction(); a.reset(new GRRFriction{*i, *f}); break; }
    default: break;
  }
  CMU::serialize(a, vc_os(1)); const auto b = CMU::deserializeFrictionSolver(vc_is(1)); vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(impactMap)
{
  std::unique_ptr<ImpactMap> a; if (!vc_bool("none")) a.reset(new ImpactMap{vc_bool("warm") != 0});
  CMU::serialize(a, vc_os(1)); const auto b = CMU::deserializeImpactMap(vc_is(1)); vc_stream_done(1);
  vc_assert((a == nullptr) == (b == nullptr), VC_SAME); if (a) fields(*a, *b);
  vc_cover("done");
}
static ImpulsesToCache mode() { switch (vc_choose("mode", 3)) { case 0: return ImpulsesToCache::NONE; case 1: return ImpulsesToCache::NORMAL; default: return ImpulsesToCache::NORMAL_AND_FRICTION; } }
static void mapRoundTrip(const std::unique_ptr<ImpactFrictionMap>& a) { CMU::serialize(a, vc_os(1)); const auto b = CMU::deserializeImpactFrictionMap(vc_is(1)); vc_stream_done(1); same(a, b); vc_cover("done"); }
VC(noMap) { mapRoundTrip(nullptr); }
VC(geometricMap) { auto* m = new GeometricImpactFrictionMap{vc_pos("tol"), unsigned(vc_int("it", 0, 100000)), mode()}; const std::unique_ptr<ImpactFrictionMap> a{m}; set_f(*m, vc_vecx("f", vc_size("nf", 0, vc_native() ? 6 : 1000000)), 0); mapRoundTrip(a); }
VC(stabilizedMap) { auto* m = new StabilizedImpactFrictionMap{vc_pos("tol"), unsigned(vc_int("it", 0, 100000)), vc_bool("a") != 0, vc_bool("b") != 0}; const std::unique_ptr<ImpactFrictionMap> a{m}; set_f(*m, vc_vecx("f", vc_size("nf", 0, vc_native() ? 6 : 1000000)), 0); mapRoundTrip(a); }
VC(symplecticMap) { auto* m = new SymplecticEulerImpactFrictionMap{vc_pos("tol"), unsigned(vc_int("it", 0, 100000)), mode(), vc_bool("s") != 0, vc_pos("pen")}; const std::unique_ptr<ImpactFrictionMap> a{m}; set_f(*m, vc_vecx("f", vc_size("nf", 0, vc_native() ? 6 : 1000000)), 0); mapRoundTrip(a); }
