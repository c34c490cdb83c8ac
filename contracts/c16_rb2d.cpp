// Editing and copying a RigidBody2D state, and its bounding box.
#define VC_SAME "per-body data stays aligned and unchanged"
#include "st_rb2d.h"
// BOUND (addBody|removeBodies|removeGeometry) 2 3
// BOUND boundingBox 1 2
// BOUND (copy|assign) 1 2
// SECS (copy|assign) 200
#define DIAG "mass matrices are diagonal, of matching size, in dof order and mutually inverse"
// body i of a is body j of the description s
static void body(const RigidBody2DState& a, long i, const Rb2d& s, long j)
{
  for (long k = 0; k < 3; ++k) { vc_sm(a.q()(3 * i + k), s.q(3 * j + k)); vc_sm(a.v()(3 * i + k), s.v(3 * j + k)); }
  vc_assert(a.fixed(int(i)) == s.fixed[j], VC_SAME); vc_sm(a.m(unsigned(i)), s.m(3 * j)); vc_sm(a.I(unsigned(i)), s.m(3 * j + 2));
  for (long k = 0; k < 3; ++k) { vc_eqi(a.M().innerIndexPtr()[3 * i + k], 3 * i + k, DIAG); vc_eqi(a.Minv().innerIndexPtr()[3 * i + k], 3 * i + k, DIAG); vc_eq(a.M().valuePtr()[3 * i + k], s.m(3 * j + k), DIAG); vc_eq(a.Minv().valuePtr()[3 * i + k], 1.0 / s.m(3 * j + k), DIAG); }
}
static void sizes(const RigidBody2DState& a, long n)
{
  vc_smi(a.nbodies(), n); vc_smi(a.q().size(), 3 * n); vc_smi(a.v().size(), 3 * n); vc_smi(a.geometryIndices().size(), n);
  for (const SparseMatrixsc* M : {&a.M(), &a.Minv()}) { vc_eqi(M->rows(), 3 * n, DIAG); vc_eqi(M->cols(), 3 * n, DIAG); vc_eqi(M->nonZeros(), 3 * n, DIAG); for (long i = 0; i <= 3 * n; ++i) vc_eqi(M->outerIndexPtr()[i], i, DIAG); }
}
VC(addBody)
{
  const long n = vc_size("n", 0, 6), ng = 1 + vc_size("ng", 0, 2);
  Rb2d s = makeBodies2d(n, ng); RigidBody2DState a = s.state();
  const Vector2s x = vc_vec2("x"), v = vc_vec2("v"); const scalar th = vc_real("theta"), om = vc_real("omega"), rho = vc_pos("rho"); const bool fixed = vc_bool("newfixed") != 0; const unsigned g = unsigned(vc_int("newgeo", 0, ng - 1));
  a.addBody(x, th, v, om, rho, g, fixed);
  s.q.conservativeResize(3 * n + 3); s.v.conservativeResize(3 * n + 3); s.m.conservativeResize(3 * n + 3);
  scalar m, I; s.geo[g]->computeMassAndInertia(rho, m, I);
  s.q(3 * n) = x(0); s.q(3 * n + 1) = x(1); s.q(3 * n + 2) = th; s.v(3 * n) = v(0); s.v(3 * n + 1) = v(1); s.v(3 * n + 2) = om; s.m(3 * n) = s.m(3 * n + 1) = m; s.m(3 * n + 2) = I; s.fixed.push_back(fixed);
  sizes(a, n + 1); for (long i = 0; i <= n; ++i) { body(a, i, s, i); vc_smi(a.geometryIndex(unsigned(i)), i < n ? s.gi(i) : g); }
  vc_smi(long(a.geometry().size()), ng); for (long i = 0; i < ng; ++i) same(*a.geometry()[i], *s.geo[i]);
  vc_cover("done");
}
VC(removeBodies)
{
  const long n = vc_size("n", 0, 6);
  Rb2d s = makeBodies2d(n, 2); RigidBody2DState a = s.state();
  // any list of body indices, in any order, possibly naming a body twice
  const long k = n == 0 ? 0 : vc_size("k", 0, 4); VectorXu idx(k); std::vector<bool> gone(n, false);
  for (long i = 0; i < k; ++i) { const long b = vc_choose("idx", n); idx(i) = unsigned(b); gone[b] = true; }
  a.removeBodies(idx);
  long left = 0; for (long i = 0; i < n; ++i) if (!gone[i]) ++left;
  sizes(a, left);
  long at = 0; for (long i = 0; i < n; ++i) if (!gone[i]) { body(a, at, s, i); vc_smi(a.geometryIndex(unsigned(at)), s.gi(i)); ++at; }
  vc_smi(long(a.geometry().size()), 2); for (long i = 0; i < 2; ++i) same(*a.geometry()[i], *s.geo[i]);
  vc_cover("done");
}
VC(removeGeometry)
{
  const long n = vc_size("n", 0, 5), ng = 1 + vc_size("ng", 0, 3);
  Rb2d s = makeBodies2d(n, ng);
  // geometry that no body uses, in any order, possibly named twice
  const long k = vc_size("k", 0, 3); VectorXu idx(k); std::vector<bool> gone(ng, false);
  for (long i = 0; i < k; ++i) { const long g = vc_choose("idx", ng); idx(i) = unsigned(g); gone[g] = true; }
  for (long i = 0; i < n; ++i) { s.gi(i) = unsigned(vc_choose("geo", ng)); if (gone[s.gi(i)]) vc_assume(0); }
  RigidBody2DState a = s.state();
  a.removeGeometry(idx);
  sizes(a, n); for (long i = 0; i < n; ++i) { body(a, i, s, i); vc_assert(a.geometryIndex(unsigned(i)) < a.geometry().size(), "geometry indices stay in range"); same(*a.bodyGeometry(unsigned(i)), *s.geo[s.gi(i)]); }
  long left = 0; for (long i = 0; i < ng; ++i) if (!gone[i]) { vc_assert(left < long(a.geometry().size()), VC_SAME); same(*a.geometry()[left], *s.geo[i]); ++left; }
  vc_smi(long(a.geometry().size()), left);
  vc_cover("done");
}
VC(addCircle)
{
  RigidBody2DState a; const scalar r0 = vc_pos("r0"), r1 = vc_pos("r1"); a.addCircleGeometry(r0); a.addCircleGeometry(r1);
  vc_smi(long(a.geometry().size()), 2); vc_assert(a.geometry()[0]->type() == RigidBody2DGeometryType::CIRCLE && a.geometry()[1]->type() == RigidBody2DGeometryType::CIRCLE, VC_SAME);
  vc_sm(static_cast<const CircleGeometry&>(*a.geometry()[0]).r(), r0); vc_sm(static_cast<const CircleGeometry&>(*a.geometry()[1]).r(), r1);
  vc_cover("done");
}
VC(copy)
{
  const long n = vc_size("n", 0, 6), ng = 1 + vc_size("ng", 0, 2); Rb2d s = makeBodies2d(n, ng); makeExtras2d(s); RigidBody2DState a = s.state();
  RigidBody2DState b{a}, c{a}; same(a, b);
  a.q().setZero(); a.v().setZero(); a.addBody(Vector2s{1, 2}, 3, Vector2s{4, 5}, 6, 1, 0, true); a.planes().clear(); a.planarPortals().clear(); a.geometryIndices().setZero(); a.addCircleGeometry(1.0);
  same(b, c);
  vc_cover("done");
}
VC(assign)
{
  const long n = vc_size("n", 0, 6), ng = 1 + vc_size("ng", 0, 2); Rb2d s = makeBodies2d(n, ng); makeExtras2d(s); RigidBody2DState a = s.state();
  RigidBody2DState b; b.addCircleGeometry(2.0); b.addBody(vc_vec2("x"), 3, Vector2s{4, 5}, 6, 1, 0, true);
  b = a; same(a, b);
  RigidBody2DState c{a}; RigidBody2DState& self = b; b = self; same(a, b);
  b.q().setConstant(3.0); b.v().setZero(); b.planes().clear(); b.geometryIndices().setZero();
  same(a, c);
  vc_cover("done");
}
VC(boundingBox)
{
  const long n = 1 + vc_size("n", 0, 5); Rb2d s = makeBodies2d(n, 2); for (long i = 0; i < n; ++i) s.gi(i) = unsigned(vc_choose("geo", 2)); const RigidBody2DState a = s.state();
  const Array4s b = a.computeBoundingBox();
  for (long k = 0; k < 2; ++k) {
    bool lo = false, hi = false;
    for (long i = 0; i < n; ++i) {
      const RigidBody2DGeometry& g = *s.geo[s.gi(i)];
      scalar ext; // half extent of the shape along axis k, from its definition
      if (g.type() == RigidBody2DGeometryType::CIRCLE) ext = static_cast<const CircleGeometry&>(g).r();
      else { const Vector2s h = static_cast<const BoxGeometry&>(g).r(); const scalar c = std::cos(s.q(3 * i + 2)), sn = std::sin(s.q(3 * i + 2)); ext = k == 0 ? std::fabs(c) * h(0) + std::fabs(sn) * h(1) : std::fabs(sn) * h(0) + std::fabs(c) * h(1); }
      const scalar x = s.q(3 * i + k), tol = vc_native() ? 1e-9 * (1 + std::fabs(x) + ext) : 0.0;
      vc_le(b(k), x - ext, "the box encloses every body"); vc_le(x + ext, b(2 + k), "the box encloses every body");
      lo = lo | (b(k) >= x - ext - tol); hi = hi | (b(2 + k) <= x + ext + tol);
    }
    vc_assert(lo && hi, "the box is the smallest one");
  }
  vc_cover("done");
}
