// NATIVEONLY bipyramid
// Moments of a closed triangle mesh.  Eigen's symmetric eigensolver is replaced, in symbolic runs only, by its contract (eigenvalues and an orthonormal eigenvector basis of
// either handedness, whatever they are); native runs use the real one.  MomentTools.cpp itself is included unchanged.
#include "eig.h"
#include <Eigen/Eigenvalues>
#ifndef VC_NATIVE
static Matrix3s g_A, g_V; static Vector3s g_lambda;
namespace Eigen { template <class M> struct VcEigenContract
{
  explicit VcEigenContract(const M& A) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g_A(i, j) = A(i, j); for (int k = 0; k < 3; ++k) g_lambda(k) = vc_real("lambda"); const Matrix33sr Q = vc_rot3("V"); const double s = vc_bool("reflected") ? -1.0 : 1.0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g_V(i, j) = s * Q(i, j); }
  ComputationInfo info() const { return Success; } const Vector3s& eigenvalues() const { return g_lambda; } const Matrix3s& eigenvectors() const { return g_V; }
}; }
#define SelfAdjointEigenSolver VcEigenContract
#endif
#include "rigidbody3d/Geometry/MomentTools.cpp"
#undef SelfAdjointEigenSolver
#define MO "mesh moments equal the sums over its signed tetrahedra"
static void compare(const Matrix3Xsc& v, const Matrix3Xuc& f)
{
  // volume, first and second moments from the tetrahedra spanned by each face and the origin
  scalar vol = 0; Vector3s first{0, 0, 0}; scalar S[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
  for (long k = 0; k < f.cols(); ++k) {
    const Vector3s a = v.col(f(0, k)), b = v.col(f(1, k)), c = v.col(f(2, k)); const Vector3s s = a + b + c;
    const scalar V = (a(0) * (b(1) * c(2) - b(2) * c(1)) + a(1) * (b(2) * c(0) - b(0) * c(2)) + a(2) * (b(0) * c(1) - b(1) * c(0))) / 6;
    vol += V; for (int i = 0; i < 3; ++i) first(i) += V * s(i) / 4; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) S[i][j] += V * (a(i) * a(j) + b(i) * b(j) + c(i) * c(j) + s(i) * s(j)) / 20;
  }
  vc_assume(vol > (vc_native() ? 1e-3 : 0.0));
  scalar mass; Vector3s I, cm; Matrix3s R; MomentTools::computeMoments(v, f, mass, I, cm, R);
  vc_eq(mass, vol, MO); for (int i = 0; i < 3; ++i) vc_eq(cm(i) * vol, first(i), MO);
  Matrix3s J; // inertia about the centre of mass
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { J(i, j) = -S[i][j] + first(i) * first(j) / vol; if (i == j) for (int k = 0; k < 3; ++k) J(i, j) += S[k][k] - first(k) * first(k) / vol; }
#ifdef VC_NATIVE
  for (int i = 0; i < 3; ++i) vc_assert(I(i) > -1e-9 * (1 + J.norm()), "principal inertias are positive");
  const Matrix3s B = R * I.asDiagonal() * R.transpose();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { vc_assert(std::fabs(B(i, j) - J(i, j)) <= 1e-8 * (1 + J.norm() + S[0][0] + S[1][1] + S[2][2]), MO); vc_assert(std::fabs(R.row(i).dot(R.row(j)) - (i == j)) <= 1e-9, "the principal frame is orthonormal"); }
  vc_assert(std::fabs(R.determinant() - 1) <= 1e-9, "the principal frame is right-handed");
#else
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vc_eq(g_A(i, j), J(i, j), MO);
  for (int i = 0; i < 3; ++i) vc_eq(I(i), g_lambda(i), "principal inertias are the eigenvalues");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { scalar p = 0, q = 0; for (int k = 0; k < 3; ++k) { p += R(i, k) * I(k) * R(j, k); q += g_V(i, k) * g_lambda(k) * g_V(j, k); } vc_eq(p, q, "the frame diagonalizes the inertia"); }
  vc_eq(R.determinant(), 1, "the principal frame is right-handed");
#endif
  vc_cover("done");
}
VC(tetrahedron)
{
  Matrix3Xsc v(3, 4); vc_fill("v", v.data(), 12); Matrix3Xuc f(3, 4); f << 0, 0, 0, 1, 2, 1, 3, 2, 1, 3, 2, 3;
  compare(v, f);
}
// closed meshes with more faces: a bipyramid over a polygon (native)
VC(bipyramid)
{
  if (!vc_native()) return;
  const long n = vc_int("n", 3, 9); Matrix3Xsc v(3, n + 2); Matrix3Xuc f(3, 2 * n); const Matrix33sr Q = vc_rot3("Q"); const Vector3s o = vc_vec3("o");
  for (long i = 0; i < n; ++i) { const double t = 6.283185307179586 * double(i) / double(n), r = vc_real_in("r", 0.3, 2); v.col(i) = Q * Vector3s{r * std::cos(t), r * std::sin(t), vc_real_in("z", -0.2, 0.2)} + o; f.col(i) << unsigned(i), unsigned((i + 1) % n), unsigned(n); f.col(n + i) << unsigned((i + 1) % n), unsigned(i), unsigned(n + 1); }
  v.col(n) = Q * Vector3s{vc_real_in("x", -0.2, 0.2), 0, vc_real_in("h", 0.5, 2)} + o; v.col(n + 1) = Q * Vector3s{0, vc_real_in("y", -0.2, 0.2), -vc_real_in("h", 0.5, 2)} + o;
  compare(v, f);
}
