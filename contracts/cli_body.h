// shared by the three tools: expects makeSim() and simBytes() and the tool's own globals
template <class T> static bool eqType(const std::unique_ptr<T>& a, const std::type_info* t) { return (a == nullptr) == (t == nullptr) && (a == nullptr || typeid(*a) == *t); }
template <class T> static const std::type_info* typeOf(const std::unique_ptr<T>& a) { return a ? &typeid(*a) : nullptr; }
static std::string simBytes() { std::ostringstream s(std::ios::binary); g_sim.serialize(s); return s.str(); }
static void setUp()
{
  g_sim = makeSim();
  g_iteration = unsigned(vc_int("iteration", 0, 50));
  g_unconstrained_map = makeMap();
  g_dt = Rational<std::intmax_t>{1 + vc_int("dtn", 0, 3), 100 + 7 * vc_int("dtd", 0, 9)};
  g_end_time = vc_pos("end"); g_CoR = vc_bool("nocor") ? SCALAR_NAN : vc_real_in("cor", 0, 1); g_mu = vc_bool("nomu") ? SCALAR_NAN : vc_pos("mu");
  g_impact_operator.reset(); g_friction_solver.reset(); g_impact_friction_map.reset(); 
  if (vc_bool("impact")) { if (vc_bool("apgd")) g_impact_operator.reset(new LCPOperatorAPGD{1e-6, 500}); else g_impact_operator.reset(new GaussSeidelOperator{1e-6}); if (std::isnan(g_CoR)) g_CoR = 0.5; }
  g_steps_per_save = 1 + unsigned(vc_int("save", 0, 1000000)); g_output_frame = unsigned(vc_int("frame", 0, 1000000)); g_dt_string_precision = unsigned(vc_int("prec", 0, 100)); g_save_number_width = unsigned(vc_int("width", 0, 100));
  g_serialize_snapshots = vc_bool("snap") != 0; g_overwrite_snapshots = true;
}
static void scramble()
{
  g_sim = decltype(g_sim){}; g_iteration += 17; g_unconstrained_map.reset(); g_dt = Rational<std::intmax_t>{9, 1}; g_end_time = -5; g_CoR = -6; g_mu = -7; g_impact_operator.reset(); g_friction_solver.reset(); g_impact_friction_map.reset();
  g_steps_per_save += 3; g_output_frame += 5; g_dt_string_precision += 7; g_save_number_width += 9; g_serialize_snapshots = !g_serialize_snapshots; g_overwrite_snapshots = false;
}
VC(checkpointFile)
{
  VcQuiet quiet; VcScratch scratch;
  setUp(); setUpMaps();
  const std::string sim = simBytes(); const unsigned it = g_iteration; const auto um = typeOf(g_unconstrained_map); const auto io = typeOf(g_impact_operator); const std::intmax_t dn = g_dt.numerator(), dd = g_dt.denominator();
  const scalar end = g_end_time, cor = g_CoR, mu = g_mu; const unsigned sps = g_steps_per_save, fr = g_output_frame, pr = g_dt_string_precision, w = g_save_number_width; const bool sn = g_serialize_snapshots;
  vc_assert(serializeSystem() == EXIT_SUCCESS, "the checkpoint is written");
  scramble(); scrambleMaps();
  vc_assert(deserializeSystem("serial.bin") == EXIT_SUCCESS, "the checkpoint is read");
  vc_assert(simBytes() == sim, VC_SAME); vc_eqi(g_iteration, it, VC_SAME); vc_assert(eqType(g_unconstrained_map, um), VC_SAME); vc_assert(eqType(g_impact_operator, io), VC_SAME);
  vc_eqi(g_dt.numerator(), dn, VC_SAME); vc_eqi(g_dt.denominator(), dd, VC_SAME);
  vc_smbits(g_end_time, end); vc_smbits(g_CoR, cor); vc_smbits(g_mu, mu); vc_eqi(g_steps_per_save, sps, VC_SAME); vc_eqi(g_output_frame, fr, VC_SAME); vc_eqi(g_dt_string_precision, pr, VC_SAME); vc_eqi(g_save_number_width, w, VC_SAME);
  vc_eqi(g_serialize_snapshots, sn, VC_SAME); vc_eqi(g_overwrite_snapshots, 1, VC_SAME); vc_assert(g_friction_solver == nullptr && g_impact_friction_map == nullptr, VC_SAME);
  checkMaps();
  vc_cover("done");
}
VC(resume)
{
  VcQuiet quiet; VcScratch scratch;
  setUp(); setUpMaps(); g_serialize_snapshots = false; g_steps_per_save = 1000000;
  vc_allow_exit(1); // an impact solver may give up on a degenerate scene; if the uninterrupted run completes, so must the resumed one
  const long before = vc_int("before", 0, 4), after = vc_int("after", 1, 4);
  for (long i = 0; i < before; ++i) vc_assert(stepSystem() == EXIT_SUCCESS, "a step succeeds");
  vc_assert(serializeSystem() == EXIT_SUCCESS, "the checkpoint is written");
  for (long i = 0; i < after; ++i) vc_assert(stepSystem() == EXIT_SUCCESS, "a step succeeds");
  const std::string straight = simBytes(); const unsigned it = g_iteration;
  scramble(); scrambleMaps();
  vc_allow_exit(0);
  vc_assert(deserializeSystem("serial.bin") == EXIT_SUCCESS, "the checkpoint is read");
  for (long i = 0; i < after; ++i) vc_assert(stepSystem() == EXIT_SUCCESS, "a step succeeds");
  vc_eqi(g_iteration, it, VC_SAME);
  vc_assert(simBytes() == straight, "a resumed simulation takes exactly the same steps");
  vc_cover("done");
}
