// Narrow phase of the 2D systems with portals (balls / circles).  D: degrees of freedom per body; touches(P, x, r, second): does the body's portal test report this plane.
#define PA "with a portal, every pair touching in any periodic image has exactly one contact, and no other pair has one"
#define PN "a contact across a portal uses the start-of-step positions of the touching images"
namespace { struct Img { long tele; bool le = false; Vector2s x0, x1; Vector2s kick; }; }
template<int D, class Sim, class P> static void portalActive(Sim& sim, const std::vector<P>& portals, const std::vector<scalar>& pv, const VectorXs& r, long n, const VectorXs& q0, const VectorXs& q1, bool le)
{
  std::vector<std::vector<Img>> im; const VectorXs v = VectorXs::Zero(D * n); bool both = false;
  for (long i = 0; i < n; ++i) { im.emplace_back(); const Vector2s x0 = q0.segment<2>(D * i), x1 = q1.segment<2>(D * i); im.back().push_back(Img{0, false, x0, x1, Vector2s::Zero()});
    for (size_t k = 0; k < portals.size(); ++k) { const P& p = portals[k]; const bool a = touches(p, x1, r(i), false), b = touches(p, x1, r(i), true); both = both || (a && b); if (a == b) continue; Img g; g.tele = 1; g.le = pv[k] != 0; tele(p, x0, b, g.x0); tele(p, x1, b, g.x1); const Vector2s at(-p.planeA().n().y(), p.planeA().n().x()), bt(-p.planeB().n().y(), p.planeB().n().x()); g.kick = b ? Vector2s(-pv[k] * bt) : Vector2s(-pv[k] * at); im.back().push_back(g); } }
  vc_assume(!both);
  // requires: the domain is larger than the bodies (a body does not touch its own images), and start-of-step centres are distinct
  for (long i = 0; i < n; ++i) for (size_t a = 1; a < im[size_t(i)].size(); ++a) { const Vector2s d = im[size_t(i)][a].x1 - im[size_t(i)][0].x1; vc_assume(d.x() * d.x() + d.y() * d.y() > 4 * r(i) * r(i)); }
  std::vector<std::unique_ptr<Constraint>> as; static_cast<ConstrainedSystem&>(sim).computeActiveSet(q0, q1, v, as); long total = 0;
  for (long i = 0; i < n; ++i) for (long j = i + 1; j < n; ++j) {
    const Vector2s w = q1.segment<2>(D * i) - q1.segment<2>(D * j), z = q0.segment<2>(D * i) - q0.segment<2>(D * j); const scalar R = r(i) + r(j); const scalar g = w.x() * w.x() + w.y() * w.y() - R * R; if (vc_native()) vc_assume(std::fabs(g) > 1e-9); const bool U = g <= 0;
    std::vector<std::pair<size_t, size_t>> t;
    for (size_t a = 0; a < im[size_t(i)].size(); ++a) for (size_t b = 0; b < im[size_t(j)].size(); ++b) { if (!a && !b) continue; const Vector2s d = im[size_t(i)][a].x1 - im[size_t(j)][b].x1; const scalar e = d.x() * d.x() + d.y() * d.y() - R * R; if (vc_native()) vc_assume(std::fabs(e) > 1e-9); if (e <= 0 && !U) vc_assume(!(im[size_t(i)][a].le && im[size_t(j)][b].le)); if (e <= 0 && !(a && b && U)) t.emplace_back(a, b); }
    long ku = 0, kt = 0; const Constraint *cu = nullptr, *ct = nullptr;
    for (const auto& c : as) { std::pair<int, int> b; c->getBodyIndices(b); if (!((b.first == i && b.second == j) || (b.first == j && b.second == i))) continue; if (isTele(*c)) { ++kt; ct = c.get(); } else { ++ku; cu = c.get(); } }
    total += ku + kt; vc_assert(ku <= 1, PA); vc_assert(!U || ku == 1, PA); vc_eqi(kt, t.empty() ? 0 : 1, PA);
    if (!U && ku) { const std::pair<bool, scalar> h = CollisionDetectionUtilities::ballBallCCDCollisionHappens(q0.segment<2>(D * i), q1.segment<2>(D * i), r(i), q0.segment<2>(D * j), q1.segment<2>(D * j), r(j)); vc_assert(h.first, PA); }
    if (cu) { MatrixXXsc B; cu->computeBasis(q0, v, B); const Vector2s m = B.col(0); std::pair<int, int> b; cu->getBodyIndices(b); const scalar l = std::sqrt(z.x() * z.x() + z.y() * z.y()), s = b.first == i ? 1 : -1; vc_eq(m(0) * l, s * z.x(), PN); vc_eq(m(1) * l, s * z.y(), PN); }
    if (ct && !t.empty()) {
      MatrixXXsc B; ct->computeBasis(q0, v, B); const Vector2s m = B.col(0); std::pair<int, int> b; ct->getBodyIndices(b); const scalar s = b.first == i ? 1 : -1;
      if (!vc_native()) { const Vector2s d = im[size_t(i)][t[0].first].x0 - im[size_t(j)][t[0].second].x0; const scalar l = std::sqrt(d.x() * d.x() + d.y() * d.y()); vc_assume(l > 0); vc_eq(m(0) * l, s * d.x(), PN); vc_eq(m(1) * l, s * d.y(), PN); }
      else { bool ok = false; for (const auto& c : t) { const Img &A = im[size_t(i)][c.first], &C = im[size_t(j)][c.second]; const Vector2s d = (A.x0 - C.x0).normalized(); VectorXs k = VectorXs::Zero(long(as.size())); bool kin = true;
          if (le) { const Vector2s rel = C.kick - A.kick; ct->evalKinematicNormalRelVel(q0, 0, k); kin = std::fabs(k(0) + d.dot(rel)) <= 1e-9 * (1 + rel.norm()); }
          ok = ok || ((m - s * d).norm() <= 1e-9 && kin); } vc_assert(ok, PN); }
    } }
  vc_eqi(long(as.size()), total, PA); vc_cover("done"); if (total && !vc_native()) vc_cover("contact");
}
