// Editing and copying a Ball2D state, and its bounding box.
#define VC_SAME "per-ball data stays aligned and unchanged"
#include "st_ball2d.h"
// BOUND push 2 3
// BOUND copy 1 2
// BOUND assign 1 2
// BOUND boundingBox 2 3
#define DIAG "mass matrices are diagonal, of matching size, in dof order and mutually inverse"
static void diag(const SparseMatrixsc& M, const VectorXs& m, bool inv)
{
  vc_eqi(M.rows(), m.size(), DIAG); vc_eqi(M.cols(), m.size(), DIAG); vc_eqi(M.nonZeros(), m.size(), DIAG);
  for (long i = 0; i < m.size(); ++i) { vc_eqi(M.outerIndexPtr()[i], i, DIAG); vc_eqi(M.innerIndexPtr()[i], i, DIAG); vc_eq(M.valuePtr()[i], inv ? 1.0 / m(i) : m(i), DIAG); }
}
VC(push)
{
  Ball2DState a; const long n = vc_size("n", 0, 6); makeBalls(a, n);
  Ball2DState old{a};
  VectorXs m(2 * (n + 1)); for (long i = 0; i < 2 * n; ++i) m(i) = a.M().valuePtr()[i];
  const Vector2s x = vc_vec2("x"), v = vc_vec2("v"); const scalar r = vc_pos("r"), mass = vc_pos("m"); const bool fixed = vc_bool("fixed") != 0;
  m(2 * n) = m(2 * n + 1) = mass;
  a.pushBallBack(x, v, r, mass, fixed);
  vc_smi(a.nballs(), n + 1); vc_smi(a.q().size(), 2 * n + 2); vc_smi(a.v().size(), 2 * n + 2); vc_smi(a.r().size(), n + 1); vc_smi(long(a.fixed().size()), n + 1);
  for (long i = 0; i < n; ++i) { vc_sm(a.r()(i), old.r()(i)); vc_assert(a.fixed()[i] == old.fixed()[i], VC_SAME); for (long k = 0; k < 2; ++k) { vc_sm(a.q()(2 * i + k), old.q()(2 * i + k)); vc_sm(a.v()(2 * i + k), old.v()(2 * i + k)); } }
  for (long k = 0; k < 2; ++k) { vc_sm(a.q()(2 * n + k), x(k)); vc_sm(a.v()(2 * n + k), v(k)); }
  vc_sm(a.r()(n), r); vc_assert(a.fixed()[n] == fixed, VC_SAME);
  diag(a.M(), m, false); diag(a.Minv(), m, true);
  vc_cover("done");
}
VC(copy)
{
  Ball2DState a; const long n = vc_size("n", 0, 6); makeBalls(a, n); makeExtras(a);
  Ball2DState b{a}; same(a, b);
  // independent: editing the original leaves the copy alone
  Ball2DState c{a};
  a.q().setZero(); a.v().setZero(); a.r().setZero(); if (n) a.fixed()[0] = !a.fixed()[0]; a.pushBallBack(Vector2s{1, 2}, Vector2s{3, 4}, 1.0, 2.0, true);
  a.staticDrums().clear(); a.staticPlanes().clear(); a.planarPortals().clear(); a.forces().clear();
  same(b, c);
  vc_cover("done");
}
VC(assign)
{
  Ball2DState a, b; const long n = vc_size("n", 0, 6); makeBalls(a, n); makeExtras(a);
  makeBalls(b, 1); b.staticDrums().emplace_back(vc_vec2("dx"), 1.0); b.forces().emplace_back(new Ball2DGravityForce{vc_vec2("g")});
  b = a; same(a, b);
  Ball2DState c{a};
  Ball2DState& self = b; b = self; same(a, b);
  b.q().setConstant(3.0); b.v().setZero(); b.staticPlanes().clear(); b.forces().clear();
  same(a, c);
  vc_cover("done");
}
VC(boundingBox)
{
  Ball2DState a; const long n = 1 + vc_size("n", 0, 6), nd = vc_size("nd", 0, 3);
  a.q() = vc_vecx("q", 2 * n); a.v() = vc_vecx("v", 2 * n); a.r().resize(n); vc_fill_pos("r", a.r().data(), n); for (long i = 0; i < n; ++i) a.fixed().push_back(false);
  for (long i = 0; i < nd; ++i) a.staticDrums().emplace_back(vc_vec2("dx"), vc_pos("dr"));
  const Vector4s b = a.computeBoundingBox();
  for (long k = 0; k < 2; ++k) {
    bool lo = false, hi = false;
    for (long i = 0; i < n + nd; ++i) {
      const scalar x = i < n ? a.q()(2 * i + k) : a.staticDrums()[i - n].x()(k), r = i < n ? a.r()(i) : a.staticDrums()[i - n].r();
      vc_le(b(2 * k), x - r, "the box encloses every body"); vc_le(x + r, b(2 * k + 1), "the box encloses every body");
      lo = lo | (b(2 * k) == x - r); hi = hi | (b(2 * k + 1) == x + r);
    }
    vc_assert(lo && hi, "the box is the smallest one");
  }
  vc_cover("done");
}
