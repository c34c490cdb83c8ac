// Masses and inertias of 3D shapes; mass matrices of a RigidBody3D system, at set-up and after the orientations changed.
#include "st_rb3d.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
// BOUND (atSetup|afterUpdate) 2 3
// SECS (atSetup|afterUpdate) 200
#define MI "mass and inertia equal the closed form"
#define MM "mass matrices carry the masses in dof order"
#define MR "inertia equals the body-frame inertia rotated by the orientation"
#define MV "mass and inverse mass matrix are mutually inverse"
static void frame(const Vector3s& cm, const Matrix33sr& R) { for (int i = 0; i < 3; ++i) { vc_eq(cm(i), 0, "the shape is already centred"); for (int j = 0; j < 3; ++j) vc_eq(R(i, j), i == j, "the shape is already in its principal frame"); } }
VC(sphere)
{
  const scalar r = vc_pos("r"), rho = vc_pos("rho"), PIs = 3.14159265358979323846; scalar M; Vector3s cm, I; Matrix33sr R; const RigidBodySphere g{r}; g.computeMassAndInertia(rho, M, cm, I, R);
  vc_eq(g.volume(), 4 * PIs * r * r * r / 3, MI); vc_eq(M, rho * 4 * PIs * r * r * r / 3, MI); for (int k = 0; k < 3; ++k) { vc_eq(I(k), rho * 8 * PIs * r * r * r * r * r / 15, MI); vc_assert(I(k) > 0, "inertia is positive"); }
  frame(cm, R); vc_cover("done");
}
VC(box)
{
  const scalar a = vc_pos("a"), b = vc_pos("b"), c = vc_pos("c"), rho = vc_pos("rho"); scalar M; Vector3s cm, I; Matrix33sr R; const RigidBodyBox g{Vector3s{a, b, c}}; g.computeMassAndInertia(rho, M, cm, I, R);
  const scalar xx = 8 * a * a * a * b * c / 3, yy = 8 * a * b * b * b * c / 3, zz = 8 * a * b * c * c * c / 3; // integrals of x^2, y^2, z^2
  vc_eq(g.volume(), 8 * a * b * c, MI); vc_eq(M, rho * 8 * a * b * c, MI); vc_eq(I(0), rho * (yy + zz), MI); vc_eq(I(1), rho * (xx + zz), MI); vc_eq(I(2), rho * (xx + yy), MI); for (int k = 0; k < 3; ++k) vc_assert(I(k) > 0, "inertia is positive");
  frame(cm, R); vc_cover("done");
}
// three cylinders along the centre lines between the four corner points
VC(staple)
{
  const scalar D = vc_pos("D"), w = D + vc_pos("w"), l = D + vc_pos("l"), rho = vc_pos("rho"), PIs = 3.14159265358979323846; scalar M; Vector3s cm, I; Matrix33sr R; const RigidBodyStaple g{w, l, D}; g.computeMassAndInertia(rho, M, cm, I, R);
  const scalar r = D / 2, len[3] = {l - D, w - D, l - D}; scalar mass = 0, Ix = 0, Iy = 0, Iz = 0; Vector3s first{0, 0, 0};
  for (int e = 0; e < 3; ++e) {
    const Vector3s p = g.points()[e], q = g.points()[e + 1]; const scalar m = rho * PIs * r * r * len[e]; const scalar X = (p(0) + q(0)) / 2, Y = (p(1) + q(1)) / 2;
    vc_eq((q - p).squaredNorm(), len[e] * len[e], "corner points span the skeleton"); vc_eq(p(2), 0, "the skeleton is planar"); vc_eq(q(2), 0, "the skeleton is planar");
    const scalar ax = m * r * r / 2, tr = m * (3 * r * r + len[e] * len[e]) / 12; // solid cylinder about its axis / across it
    mass += m; first += m * Vector3s{X, Y, 0}; const bool alongX = e == 1;
    Ix += (alongX ? ax : tr) + m * Y * Y; Iy += (alongX ? tr : ax) + m * X * X; Iz += tr + m * (X * X + Y * Y);
  }
  vc_eq(M, mass, MI); vc_eq(I(0), Ix, MI); vc_eq(I(1), Iy, MI); vc_eq(I(2), Iz, MI); for (int k = 0; k < 3; ++k) vc_eq(first(k), 0, "corner points are relative to the centre of mass"); for (int k = 0; k < 3; ++k) vc_assert(I(k) > 0, "inertia is positive");
  vc_eq(cm(0), 0, MI); vc_eq(cm(1), -g.points()[1](1), MI); vc_eq(cm(2), 0, MI);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vc_eq(R(i, j), i == j, "the shape is already in its principal frame");
  vc_cover("done");
}
static scalar at(const SparseMatrixsc& M, long i, long j) { return M.coeff(i, j); }
static void check(const RigidBody3DState& a, const Rb3d& s)
{
  const long n = long(s.X.size());
  for (const SparseMatrixsc* M : {&a.M0(), &a.Minv0()}) { vc_eqi(M->rows(), 6 * n, MM); vc_eqi(M->cols(), 6 * n, MM); vc_eqi(M->nonZeros(), 6 * n, MM); vc_assert(M->isCompressed(), MM); for (long i = 0; i < 6 * n; ++i) { vc_eqi(M->outerIndexPtr()[i], i, MM); vc_eqi(M->innerIndexPtr()[i], i, MM); } }
  for (const SparseMatrixsc* M : {&a.M(), &a.Minv()}) { vc_eqi(M->rows(), 6 * n, MM); vc_eqi(M->cols(), 6 * n, MM); vc_eqi(M->nonZeros(), 12 * n, MM); vc_assert(M->isCompressed(), MM); }
  for (long b = 0; b < n; ++b) {
    for (int k = 0; k < 3; ++k) { const long i = 3 * b + k; vc_eq(at(a.M(), i, i), s.M[b], MM); vc_eq(at(a.M0(), i, i), s.M[b], MM); vc_eq(at(a.Minv(), i, i) * s.M[b], 1, MV); vc_eq(at(a.Minv0(), i, i) * s.M[b], 1, MV); }
    vc_eq(a.getTotalMass(unsigned(b)), s.M[b], MM);
    const Matrix33sr R = s.rot(b); const long o = 3 * n + 3 * b;
    for (int i = 0; i < 3; ++i) { vc_eq(at(a.M0(), o + i, o + i), s.I0[b](i), MM); vc_eq(at(a.Minv0(), o + i, o + i) * s.I0[b](i), 1, MV); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
      scalar I = 0, J = 0; for (int k = 0; k < 3; ++k) { I += R(i, k) * s.I0[b](k) * R(j, k); J += R(i, k) / s.I0[b](k) * R(j, k); }
      vc_eq(at(a.M(), o + i, o + j), I, MR); vc_eq(a.getInertia(unsigned(b))(i, j), I, MR); vc_eq(at(a.Minv(), o + i, o + j), J, MR);
    }
  }
}
VC(atSetup) { const long n = vc_size("n", 0, 4); Rb3d s; makeBodies3d(s, n, 1); RigidBody3DState a; s.set(a); check(a, s); vc_cover("done"); }
VC(afterUpdate)
{
  const long n = vc_size("n", 0, 4); Rb3d s; makeBodies3d(s, n, 1); RigidBody3DState a; s.set(a);
  for (long b = 0; b < n; ++b) { const Matrix33sr Q = vc_rot3("Q"); for (int k = 0; k < 9; ++k) { s.R[b](k) = Q(k / 3, k % 3); a.q()(3 * n + 9 * b + k) = Q(k / 3, k % 3); } }
  a.updateMandMinv(); check(a, s); vc_cover("done");
}
// R diag(I) R^T and R diag(1/I) R^T are inverse for every rotation: with the two contracts above, M and Minv are mutually inverse
VC(inverse)
{
  const Matrix33sr R = vc_rot3("R"); const Vector3s I0{vc_pos("I"), vc_pos("I"), vc_pos("I")};
  scalar I[3][3], J[3][3];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { I[i][j] = J[i][j] = 0; for (int k = 0; k < 3; ++k) { I[i][j] += R(i, k) * I0(k) * R(j, k); J[i][j] += R(i, k) / I0(k) * R(j, k); } }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { scalar p = 0; for (int k = 0; k < 3; ++k) p += I[i][k] * J[k][j]; vc_eq(p, i == j, MV); }
  vc_cover("done");
}
