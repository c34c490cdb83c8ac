// Portals of the 2D systems.  Included by c10_ball2d.cpp and c10_rb2d.cpp, which define plane(name) (any plane).
// A portal is a pair of planes A and B; a point d behind A at tangential coordinate s (measured from A's point, along A's tangent) comes out d in front of B.
#define ST "a teleported point is as far in front of the other plane as it was behind its own"
#define TN "a teleported point keeps its tangential position up to the Lees-Edwards offset and whole periods"
#define PB "a teleported point lies within the periodic bounds of the other plane"
#define DS "teleporting moves a point by exactly the displacement between the planes, the Lees-Edwards offset and whole periods"
#define RT "teleporting through one plane and back through the other returns the point"
#define IN "a point is inside the portal exactly when it is behind one of the planes"
#define KV "the velocity added by a Lees-Edwards portal is the velocity of the boundary displacement"
#define DX "the Lees-Edwards offset is the distance travelled by the boundary up to whole periods, within the bounds"
namespace {
struct Por { Vector2s ax, an, at, bx, bn, bt; scalar v, b; int kind; };
// kind 0: no bounds, no velocity (periodic); 1: Lees-Edwards with bounds
static scalar wrapped(scalar s, scalar b) { return s - 2 * b * std::floor((s + b) / (2 * b)); }
template<class Pl> static Por por(const Pl& A, const Pl& B, scalar v, scalar b, int kind)
{
  Por p; p.ax = A.x(); p.an = A.n(); p.at = Vector2s(-A.n().y(), A.n().x()); p.bx = B.x(); p.bn = B.n(); p.bt = Vector2s(-B.n().y(), B.n().x()); p.v = v; p.b = b; p.kind = kind; return p;
}
}
VC(teleportAny)
{
  const auto A = plane("A"), B = plane("B"); const int kind = int(vc_choose("kind", 2)); const scalar v = kind ? vc_real("v") : 0.0, b = kind ? vc_pos("bounds") : 0.0;
  if (vc_native() && kind) vc_assume(b > 0.01);
  PlanarPortal P{A, B, v, b}; const Por p = por(A, B, v, b, kind); scalar dx = 0;
  if (kind) { const scalar t = vc_real("t"); P.updateMovingPortals(t); dx = wrapped(v * t, b); }
  const Vector2s x = vc_vec2("x"); const bool second = vc_choose("second", 2) != 0; Vector2s y; tele(P, x, second, y);
  const Vector2s &nx = second ? p.bn : p.an, &tx = second ? p.bt : p.at, &ox = second ? p.bx : p.ax, &ny = second ? p.an : p.bn, &ty = second ? p.at : p.bt, &oy = second ? p.ax : p.bx;
  vc_eq(ny.dot(y - oy), -nx.dot(x - ox), ST);
  const scalar s = dx - tx.dot(x - ox);
  if (!kind) vc_eq(ty.dot(y - oy), s, TN);
  else {
    const scalar k = (s - ty.dot(y - oy)) / (2 * b); vc_eq(ty.dot(y - oy), wrapped(s, b), TN);
    if (!vc_native()) vc_eq(k, std::floor((s + b) / (2 * b)), TN);
  }
  vc_cover("done");
}
VC(inBounds)
{
  const auto A = plane("A"), B = plane("B"); const scalar v = vc_real("v"), b = vc_pos("bounds"); PlanarPortal P{A, B, v, b};
  P.updateMovingPortals(vc_real("t")); const Vector2s x = vc_vec2("x"); const bool second = vc_choose("second", 2) != 0; Vector2s y; tele(P, x, second, y);
  if (vc_native()) vc_assume(b > 0.01);
  const scalar s = second ? A.t().dot(y - A.x()) : B.t().dot(y - B.x()), tol = vc_native() ? 1e-9 * (1 + std::fabs(s) + x.norm()) : 0;
  vc_le(-b - tol, s, PB); vc_le(s, b + tol, PB); vc_cover("done");
}
// planes facing each other
VC(displacement)
{
  const auto A = plane("A"); const auto B = opposite(A, "Bx"); const int kind = int(vc_choose("kind", 2)); const scalar v = kind ? vc_real("v") : 0.0, b = kind ? vc_pos("bounds") : 0.0;
  if (vc_native() && kind) vc_assume(b > 0.01);
  PlanarPortal P{A, B, v, b}; if (kind) P.updateMovingPortals(vc_real("t"));
  const Vector2s x = vc_vec2("x"), at(-A.n().y(), A.n().x()); Vector2s y; tele(P, x, false, y);
  const Vector2s off = P.transformedAx() - A.x(); const scalar s = at.dot(off) - at.dot(x - A.x()); const scalar k = kind ? std::floor((s + b) / (2 * b)) : 0.0;
  vc_eq2(y - x, B.x() - A.x() - off + 2 * k * b * at, DS);
  vc_eq2(P.transformedAx() - A.x(), -(P.transformedBx() - B.x()), "the two planes of a portal move by opposite offsets");
  vc_cover("done");
}
VC(roundTrip)
{
  const auto A = plane("A"); const auto B = opposite(A, "Bx"); const int kind = int(vc_choose("kind", 2)); const scalar v = kind ? vc_real("v") : 0.0, b = kind ? vc_pos("bounds") : 0.0;
  if (vc_native() && kind) vc_assume(b > 0.01);
  PlanarPortal P{A, B, v, b}; if (kind) P.updateMovingPortals(vc_real("t"));
  const bool second = vc_choose("second", 2) != 0; const Vector2s o = second ? B.x() : A.x(), n = second ? B.n() : A.n(), t(-n.y(), n.x());
  const scalar d = vc_real("depth"), u = vc_real_in("u", -1, 1), s = kind ? b * u : vc_real("s"); vc_assume((u > -1) & (u < 1)); if (vc_native()) vc_assume((u > -0.999) & (u < 0.999));   // kind 1: within the bounds
  const Vector2s x = o + d * n + s * t; Vector2s y, z; tele(P, x, second, y); tele(P, y, !second, z);
  vc_eq2(z, x, RT);
  vc_cover("done");
}
VC(plainRoundTrip)   // any two planes, no bounds
{
  const auto A = plane("A"), B = plane("B"); PlanarPortal P{A, B, 0.0, 0.0}; const bool second = vc_choose("second", 2) != 0; const Vector2s x = vc_vec2("x"); Vector2s y, z; tele(P, x, second, y); tele(P, y, !second, z);
  vc_eq2(z, x, RT); vc_cover("done");
}
VC(inside)
{
  const auto A = plane("A"), B = plane("B"); const scalar v = vc_real("v"); PlanarPortal P{A, B, v, 0.0}; const Vector2s x = vc_vec2("x"); const scalar da = A.n().dot(x - A.x()), db = B.n().dot(x - B.x());
  if (vc_native()) vc_assume((std::fabs(da) > 1e-9) & (std::fabs(db) > 1e-9));
  vc_assert(P.pointInsidePortal(x) == ((da < 0) | (db < 0)), IN); vc_assert(P.isLeesEdwards() == (v != 0), "a portal is a Lees-Edwards portal exactly when its boundary moves");
  vc_assume((da < 0) != (db < 0)); Vector2s y, w; P.teleportPointInsidePortal(x, y); tele(P, x, db < 0, w); vc_eq2(y, w, "a point inside the portal goes through the plane it is behind");
  const Vector2s kv = P.getKinematicVelocityOfPoint(x); const Vector2s at(-A.n().y(), A.n().x()), bt(-B.n().y(), B.n().x()); vc_eq2(kv, -v * (da < 0 ? at : bt), KV);
  vc_cover("done");
}
// the velocity is the rate of the displacement: between two times with no wrap in between the teleported image of a resting point moves with the velocity that is added
VC(kinematic)
{
  const auto A = plane("A"); const auto B = opposite(A, "Bx"); const scalar v = vc_real("v"), t0 = vc_real("t0"), t1 = vc_real("t1"); PlanarPortal P{A, B, v, 0.0}; const Vector2s x = vc_vec2("x");
  const scalar da = A.n().dot(x - A.x()), db = B.n().dot(x - B.x()); vc_assume((da < 0) != (db < 0)); Vector2s y0, y1; P.updateMovingPortals(t0); P.teleportPointInsidePortal(x, y0); P.updateMovingPortals(t1); P.teleportPointInsidePortal(x, y1);
  vc_eq2(y1 - y0, (t1 - t0) * P.getKinematicVelocityOfPoint(x), KV); vc_cover("done");
}
VC(offset)
{
  const auto A = plane("A"), B = plane("B"); const scalar v = vc_real("v"), b = vc_pos("bounds"), t = vc_real("t"); PlanarPortal P{A, B, v, b}; if (vc_native()) vc_assume(b > 0.01);
  P.updateMovingPortals(vc_real("earlier")); P.updateMovingPortals(t);
  const Vector2s o = P.transformedAx() - A.x(), at(-A.n().y(), A.n().x()), bt(-B.n().y(), B.n().x()); const scalar dx = o.dot(at), tol = vc_native() ? 1e-9 * (1 + std::fabs(v * t)) : 0;
  vc_le(-b - tol, dx, DX); vc_le(dx, b + tol, DX); if (!vc_native() || std::fabs(std::fabs(dx) - b) > 1e-6) vc_eq(dx, wrapped(v * t, b), DX); vc_eq2(P.transformedBx() - B.x(), dx * bt, DX); vc_eq2(o, dx * at, DX);
  vc_eq(P.bounds(), b, DX); vc_eq2(P.planeA().x(), A.x(), DX); vc_eq2(P.planeB().n(), B.n(), DX); vc_cover("done");
}
