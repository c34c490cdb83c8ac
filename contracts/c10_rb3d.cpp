// Portals of RigidBody3D systems.  A point at coordinates (d, s0, s1) behind plane A comes out at the coordinates multiplied by the portal's multiplier in front of plane B.
#include "st_rb3d.h"
#include "rigidbody3d/RigidBody3DSim.h"
#include "rigidbody3d/PythonScripting.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/Math/Rational.h"
// BOUND simStep 1 2
// TRIALS .* 300
#define ST "a teleported point has the multiplied coordinates of its own plane in the frame of the other plane"
#define RT "teleporting through one plane and back through the other returns the point"
#define IN "a point is inside the portal exactly when it is behind one of the planes"
#define FR "the normal and tangents of a plane are an orthonormal frame"
static Vector3s through(const PlanarPortal& P, const Vector3s& x, bool second) { Vector3s y; P.teleportPoint(x, second, y); return y; }
static StaticPlane slab(const char* nm, bool flip)   // planes whose frame is defined (normal not opposite to the y axis)
{
  Vector3s n = vc_unit3(nm); if (flip) n = -n; vc_assume(n.y() > -0.99); return StaticPlane{vc_vec3(nm), n};
}
static void coords(const Array3i& m, bool round)
{
  const StaticPlane A = slab("A", false), B = slab("B", false); const PlanarPortal P{A, B, m}; const Vector3s x = vc_vec3("x"); const bool second = vc_choose("second", 2) != 0; const StaticPlane &S = second ? B : A, &T = second ? A : B;
  const Vector3s y = through(P, x, second);
  if (round) { vc_eq3(through(P, y, !second), x, RT); vc_cover("done"); return; }
  vc_eq(T.n().dot(y - T.x()), -m.x() * S.n().dot(x - S.x()), ST); vc_eq(T.t0().dot(y - T.x()), -m.y() * S.t0().dot(x - S.x()), ST); vc_eq(T.t1().dot(y - T.x()), -m.z() * S.t1().dot(x - S.x()), ST);
  Vector3s z; if (second) P.teleportPointThroughPlaneB(x, z); else P.teleportPointThroughPlaneA(x, z); vc_eq3(z, y, "teleporting by plane index goes through that plane");
  vc_cover("done");
}
VC(frame)
{
  const StaticPlane A = slab("A", false); vc_eq(A.n().squaredNorm(), 1, FR); vc_eq(A.t0().squaredNorm(), 1, FR); vc_eq(A.t1().squaredNorm(), 1, FR); vc_eq(A.n().dot(A.t0()), 0, FR); vc_eq(A.n().dot(A.t1()), 0, FR); vc_eq(A.t0().dot(A.t1()), 0, FR); vc_eq3(A.t0().cross(A.n()), A.t1(), FR); vc_cover("done");
}
VC(coordinates) { coords(Array3i{vc_choose("m0", 2) ? 1 : -1, vc_choose("m1", 2) ? 1 : -1, vc_choose("m2", 2) ? 1 : -1}, false); }
VC(roundTrip) { coords(Array3i{vc_choose("m0", 2) ? 1 : -1, vc_choose("m1", 2) ? 1 : -1, vc_choose("m2", 2) ? 1 : -1}, true); }
// facing planes along a coordinate axis, with the multiplier the scene needs for their frames: a pure translation
static void translation(const Vector3s& n, const Array3i& m)
{
  const Vector3s a = vc_vec3("a"), b = vc_vec3("b"), x = vc_vec3("x"); const PlanarPortal P{StaticPlane{a, n}, StaticPlane{b, Vector3s(-n)}, m}; const bool second = vc_choose("second", 2) != 0;
  vc_eq3(through(P, x, second) - x, second ? Vector3s(a - b) : Vector3s(b - a), "a portal between facing planes moves points by exactly the displacement between them"); vc_cover("done");
}
VC(facingX) { translation(Vector3s::UnitX(), Array3i{1, 1, -1}); }
VC(inside)
{
  const StaticPlane A{vc_vec3("A"), vc_unit3("A")}, B{vc_vec3("B"), vc_unit3("B")}; const PlanarPortal P{A, B, Array3i{1, 1, -1}}; const Vector3s x = vc_vec3("x"); const scalar da = A.n().dot(x - A.x()), db = B.n().dot(x - B.x());
  if (vc_native()) vc_assume((std::fabs(da) > 1e-9) & (std::fabs(db) > 1e-9));
  vc_assert(P.pointInsidePortal(x) == ((da < 0) | (db < 0)), IN); vc_cover("done");
}
VC(goesThrough)
{
  const StaticPlane A = slab("A", false), B = slab("B", false); const PlanarPortal P{A, B, Array3i{1, 1, -1}}; const Vector3s x = vc_vec3("x"); const scalar da = A.n().dot(x - A.x()), db = B.n().dot(x - B.x()); vc_assume((da < 0) != (db < 0));
  const bool b = !(da < 0); Vector3s y; P.teleportPointInsidePortal(x, y); vc_eq3(y, through(P, x, b), "a point inside the portal goes through the plane it is behind"); Vector3s z = x; P.teleportPointInsidePortal(z, z); vc_eq3(z, y, "teleporting in place gives the same point"); vc_cover("done");
}
#define TB "a box touches the portal exactly when one of its points reaches one of the planes"
VC(boxTouch)
{
  const StaticPlane A{vc_vec3("A"), vc_unit3("A")}, B{vc_vec3("B"), vc_unit3("B")}; const PlanarPortal P{A, B, Array3i{1, 1, -1}}; const Vector3s lo = vc_vec3("lo"), h(vc_pos("hx"), vc_pos("hy"), vc_pos("hz")); const Array3s mn = lo.array(), mx = (lo + h).array();
  scalar da = A.n().dot(lo - A.x()), db = B.n().dot(lo - B.x()); for (int k = 0; k < 3; ++k) { if (A.n()(k) < 0) da += A.n()(k) * h(k); if (B.n()(k) < 0) db += B.n()(k) * h(k); }
  if (vc_native()) vc_assume((std::fabs(da) > 1e-9) & (std::fabs(db) > 1e-9));
  bool which = vc_bool("init") != 0; const bool t = P.aabbTouchesPortal(mn, mx, which); vc_assert(t == ((da <= 0) | (db <= 0)), TB); vc_assume((da <= 0) != (db <= 0)); vc_assert(which == (db <= 0), TB); vc_cover("done");
}
#define TC "a teleported collision keeps each body with its portal and plane, smaller body index first"
VC(teleportedCollision)
{
  const unsigned a = unsigned(vc_int("a", 0, 1000)), b = unsigned(vc_int("b", 0, 1000)), p = unsigned(vc_int("p", 0, 1000)), q = unsigned(vc_int("q", 0, 1000)); const bool u = vc_bool("u") != 0, w = vc_bool("w") != 0; vc_assume(a != b);
  const TeleportedCollision c{a, b, p, q, u, w}; const bool o = a < b; vc_eqi(c.bodyIndex0(), o ? a : b, TC); vc_eqi(c.bodyIndex1(), o ? b : a, TC); vc_eqi(c.portalIndex0(), o ? p : q, TC); vc_eqi(c.portalIndex1(), o ? q : p, TC); vc_eqi(c.plane0(), o ? u : w, TC); vc_eqi(c.plane1(), o ? w : u, TC);
  const unsigned d = unsigned(vc_int("d", 0, 1000)), e = unsigned(vc_int("e", 0, 1000)); vc_assume(d != e); const TeleportedCollision k{d, e, p, q, u, w};
  const unsigned a0 = o ? a : b, a1 = o ? b : a, d0 = d < e ? d : e, d1 = d < e ? e : d; vc_assert((c < k) == ((a0 < d0) | ((a0 == d0) & (a1 < d1))), "teleported collisions are ordered by their bodies"); vc_cover("done");
}
namespace { struct AnyI final : public UnconstrainedMap { VectorXs q, v;
  virtual void flow(const VectorXs&, const VectorXs&, FlowableSystem&, const unsigned, const scalar&, VectorXs& q1, VectorXs& v1) override { q1 = q; v1 = v; }
  virtual std::string name() const override { return "any"; } virtual void serialize(std::ostream&) const override {} }; }
#define SP "after a step every body inside a portal has gone through it, and nothing else has been changed"
VC(simStep)
{
  const long n = vc_size("n", 1, 3); Rb3d b; makeBodies3d(b, n, 1); RigidBody3DSim sim; RigidBody3DState& st = sim.state(); b.set(st); const StaticPlane A = slab("A", false), B = slab("B", false); st.addPlanarPortal(PlanarPortal{A, B, Array3i{1, 1, -1}});
  AnyI m; m.q = VectorXs(12 * n); for (long i = 0; i < n; ++i) m.q.segment<3>(3 * i) = vc_vec3("Xn"); for (long i = 0; i < n; ++i) { const Matrix33sr Q = vc_rot3("Rn"); for (int k = 0; k < 9; ++k) m.q(3 * n + 9 * i + k) = Q(k / 3, k % 3); } m.v = vc_vecx("vn", 6 * n); VectorXs q = m.q;
  PythonScripting py; sim.flow(py, unsigned(vc_int("it", 1, 1000)), Rational<std::intmax_t>{1, 8}, m);
  for (long i = 0; i < n; ++i) { const Vector3s x = q.segment<3>(3 * i); const scalar da = A.n().dot(x - A.x()), db = B.n().dot(x - B.x()); vc_assume((da >= 0) | (db >= 0)); if (vc_native()) vc_assume((std::fabs(da) > 1e-9) & (std::fabs(db) > 1e-9)); if ((da < 0) | (db < 0)) q.segment<3>(3 * i) = through(st.planarPortal(0), x, !(da < 0)); }
  vc_eqi(st.q().size(), 12 * n, SP); vc_eqi(st.v().size(), 6 * n, SP); for (long i = 0; i < 12 * n; ++i) vc_eq(st.q()(i), q(i), SP); for (long i = 0; i < 6 * n; ++i) vc_eq(st.v()(i), m.v(i), SP); vc_cover("done");
}
