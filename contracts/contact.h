// Generic contract of a contact (Constraint): what every concrete class must provide, stated over the observable interface only.
#ifndef VC_CONTACT_H
#define VC_CONTACT_H
#include "eig.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/UnconstrainedMaps/FlowableSystem.h"
enum { HAS_G = 1, HAS_T = 2, HAS_CP = 4, HAS_N = 8, HAS_H = 16, TWO = 32, HAS_GAP = 64, HAS_D = 128, NO_BODY = 256 };
inline const FlowableSystem& vc_anysys() { static long dummy[64]; return *reinterpret_cast<const FlowableSystem*>(dummy); }

// index of velocity degree of freedom d of body b in a system of n bodies
struct Lay2Ball { static constexpr int D = 2, V = 2; static long idx(long n, long b, int d) { return 2 * b + d; } };
struct Lay2Rigid { static constexpr int D = 2, V = 3; static long idx(long n, long b, int d) { return 3 * b + d; } };
struct Lay3Rigid { static constexpr int D = 3, V = 6; static long idx(long n, long b, int d) { return d < 3 ? 3 * b + d : 3 * n + 3 * b + d - 3; } };

// A column of generalized directions, split per body: J[b][d]; checks that nothing else is touched
template<class L> struct Column {
  double J[2][6]; long cnt;
  Column(const SparseMatrixsc& G, int col, long n, long b0, long b1, const char* frame)
  {
    for (int i = 0; i < 2; ++i) for (int d = 0; d < 6; ++d) J[i][d] = 0;
    cnt = 0;
    for (SparseMatrixsc::InnerIterator it(G, col); it; ++it) {
      ++cnt;
      bool hit = false;
      for (int d = 0; d < L::V; ++d) {
        if (it.row() == L::idx(n, b0, d)) { J[0][d] += it.value(); hit = true; }
        if (b1 >= 0 && it.row() == L::idx(n, b1, d)) { J[1][d] += it.value(); hit = true; }
      }
      vc_assert(hit, frame);
    }
  }
  double dot(const VectorXs& v, long n, long b0, long b1) const
  {
    double s = 0;
    for (int d = 0; d < L::V; ++d) { s += J[0][d] * v(L::idx(n, b0, d)); if (b1 >= 0) s += J[1][d] * v(L::idx(n, b1, d)); }
    return s;
  }
};
inline SparseMatrixsc vc_sparse(long rows, int reserve)
{
  SparseMatrixsc G(int(rows), 3);
  VectorXi nz(3); nz << reserve, reserve, reserve;
  G.reserve(nz);
  return G;
}
inline void vc_othercols(const SparseMatrixsc& G, const char* l)
{
  long c = 0;
  for (SparseMatrixsc::InnerIterator it(G, 0); it; ++it) ++c;
  for (SparseMatrixsc::InnerIterator it(G, 2); it; ++it) ++c;
  vc_eqi(c, 0, l);
}
template<class L, class C> struct Contact {
  C& c; const VectorXs& q; const VectorXs& v; long n; int flags;
  long b0, b1; double nrm[3], rel[3], kin[3], B[3][3], cp[3];
  Vector3s surface; bool hasSurface = false; // velocity of the scripted surface at the contact, when the surface is known
  const double* tele0 = nullptr; const double* tele1 = nullptr; // centres as seen across a portal (null: the bodies' own)
  Contact(C& c_, const VectorXs& q_, const VectorXs& v_, long n_, int f) : c(c_), q(q_), v(v_), n(n_), flags(f)
  {
    const Constraint& k = c;
    b0 = k.simulatedBody0(); b1 = k.simulatedBody1();
    if (flags & HAS_N) { VectorXs t; k.getWorldSpaceContactNormal(q, t); vc_eqi(t.size(), L::D, "contact normal has the ambient dimension"); for (int d = 0; d < L::D; ++d) nrm[d] = t(d); if (L::D == 3) vc_name("n", nrm, 3, 1); }
    VectorXs r = k.computeRelativeVelocity(q, v);
    vc_eqi(r.size(), L::D, "relative velocity has the ambient dimension");
    for (int d = 0; d < L::D; ++d) rel[d] = r(d);
    if (L::D == 3) vc_name("u", rel, 3, 0);
    VectorXs kr = k.computeKinematicRelativeVelocity(q, v);
    vc_eqi(kr.size(), L::D, "kinematic relative velocity has the ambient dimension");
    for (int d = 0; d < L::D; ++d) kin[d] = kr(d);
    if (!(flags & HAS_N) || L::D == 2) contactBasis();
    if (!(flags & HAS_N)) { for (int d = 0; d < L::D; ++d) nrm[d] = B[d][0]; if (L::D == 3) vc_name("n", nrm, 3, 1); }
    if (flags & HAS_CP) { VectorXs t; k.getWorldSpaceContactPoint(q, t); vc_eqi(t.size(), L::D, "contact point has the ambient dimension"); for (int d = 0; d < L::D; ++d) cp[d] = t(d); }
  }
  void contactBasis()
  {
    MatrixXXsc bas; c.Constraint::computeBasis(q, v, bas);
    vc_eqi(bas.rows(), L::D, "basis rows"); vc_eqi(bas.cols(), L::D, "basis cols");
    for (int i = 0; i < L::D; ++i) for (int j = 0; j < L::D; ++j) B[i][j] = bas(i, j);
  }
  // an arbitrary right-handed orthonormal frame whose first axis is the normal (3D; the 2D one is unique)
  void anyFrame()
  {
    if (L::D == 2) { B[0][0] = nrm[0]; B[1][0] = nrm[1]; B[0][1] = -nrm[1]; B[1][1] = nrm[0]; return; }
    const Vector3s a = vc_vec3("tangent"), m(nrm[0], nrm[1], nrm[2]);
    const Vector3s p = a - a.dot(m) * m;
    const scalar l = p.norm(); vc_assume(l > 1.0e-3);
    Vector3s s = p / l; vc_name("s", s.data(), 3, 1); const Vector3s t = m.cross(s);
    for (int d = 0; d < 3; ++d) { B[d][0] = m(d); B[d][1] = s(d); B[d][2] = t(d); }
  }
  MatrixXXsc frameMatrix() const { MatrixXXsc m(L::D, L::D); for (int i = 0; i < L::D; ++i) for (int j = 0; j < L::D; ++j) m(i, j) = B[i][j]; return m; }
  // velocity of the material point of body b at world position p (centre x)
  void pointVel(long b, const double* x, double* o) const
  {
    double r[3] = {0, 0, 0};
    for (int d = 0; d < L::D; ++d) { o[d] = v(L::idx(n, b, d)); r[d] = cp[d] - x[d]; }
    if (L::V == 3) { const double w = v(L::idx(n, b, 2)); o[0] -= w * r[1]; o[1] += w * r[0]; }
    if (L::V == 6) for (int d = 0; d < 3; ++d) { int i = (d + 1) % 3, j = (d + 2) % 3; o[d] += v(L::idx(n, b, 3 + i)) * r[j] - v(L::idx(n, b, 3 + j)) * r[i]; }
  }
  void centre(long b, double* o) const { long st = L::D == 2 ? L::V : 3; for (int d = 0; d < L::D; ++d) o[d] = q(st * b + d); }
  // relative velocity is that of the two material points at the reported contact point
  void pointVelocity()
  {
    if (!(flags & HAS_CP) && L::V != 2) return;
    double x[3], a[3], w[3] = {0, 0, 0};
    centre(b0, x);
    if (L::V == 2) for (int d = 0; d < 2; ++d) cp[d] = 0;
    double save[3]; for (int d = 0; d < L::D; ++d) save[d] = cp[d];
    if (tele0) for (int d = 0; d < L::D; ++d) { cp[d] = cp[d] - x[d] + tele0[d]; x[d] = tele0[d]; }
    pointVel(b0, x, a);
    if (b1 >= 0) { if (tele1) for (int d = 0; d < L::D; ++d) x[d] = tele1[d]; else centre(b1, x); pointVel(b1, x, w); }
    for (int d = 0; d < L::D; ++d) cp[d] = save[d];
    for (int d = 0; d < L::D; ++d) vc_eq(rel[d], a[d] - w[d] - kin[d], "relative velocity is that of the material points at the contact point");
  }
  // redirecting a contact to other bodies
  void redirect(unsigned i2, unsigned j2)
  {
    Constraint& k = c;
    k.setSimulatedBody0(i2); vc_eqi(k.simulatedBody0(), i2, "setSimulatedBody0 redirects body 0"); vc_eqi(k.simulatedBody1(), b1, "setSimulatedBody0 leaves body 1");
    if (b1 >= 0) { k.setSimulatedBody1(j2); vc_eqi(k.simulatedBody1(), j2, "setSimulatedBody1 redirects body 1"); vc_eqi(k.simulatedBody0(), i2, "setSimulatedBody1 leaves body 0"); }
  }
  double dotn(const double* a) const { double s = 0; for (int d = 0; d < L::D; ++d) s += a[d] * nrm[d]; return s; }
  void kinematics()
  {
    const Constraint& k = c;
    vc_eq(dotn(nrm), 1.0, "contact normal has unit length");
    vc_eq(k.evalNdotV(q, v), dotn(rel), "normal relative velocity equals normal component of relative velocity");
    if (hasSurface) for (int d = 0; d < L::D; ++d) vc_eq(kin[d], surface(d), "kinematic relative velocity is that of the scripted surface at the contact");
    if (flags & NO_BODY) {}
    else if (flags & TWO) { vc_assert(b1 >= 0, "two simulated bodies"); vc_eqi(k.body0(), b0, "body index 0"); vc_eqi(k.body1(), b1, "body index 1"); }
    else { vc_eqi(b1, -1, "no second simulated body"); vc_eqi(k.body0(), b0, "body index 0"); }
    if (flags & HAS_G) {
      VectorXs g(3); g << 7, 7, 7;
      k.evalKinematicNormalRelVel(q, 1, g);
      vc_eq(g(1), -dotn(kin), "kinematic normal relative velocity");
      vc_eq(g(0), 7, "kinematic relative velocity writes only its slot"); vc_eq(g(2), 7, "kinematic relative velocity writes only its slot");
      SparseMatrixsc G = vc_sparse(n * L::V, k.impactStencilSize());
      k.evalgradg(q, 1, G, vc_anysys());
      Column<L> J(G, 1, n, b0, b1, "constraint gradient touches only the reported bodies");
      vc_othercols(G, "constraint gradient touches only its own column");
      vc_eqi(J.cnt, k.impactStencilSize(), "impact stencil size is the number of gradient entries");
      vc_eq(J.dot(v, n, b0, b1) + g(1), dotn(rel), "gradient action plus kinematic part equals normal relative velocity");
    }
  }
  void jacobians()
  {
    const Constraint& k = c;
    if (!(flags & HAS_H)) return;
    MatrixXXsc H0(L::D, L::V), H1(L::D, L::V);
    for (int i = 0; i < L::D; ++i) for (int j = 0; j < L::V; ++j) { H0(i, j) = 0; H1(i, j) = 0; }
    k.evalH(q, frameMatrix(), H0, H1);
    for (int i = 0; i < L::D; ++i) {
      double s = 0, e = 0;
      for (int d = 0; d < L::V; ++d) { s += H0(i, d) * v(L::idx(n, b0, d)); if (b1 >= 0) s -= H1(i, d) * v(L::idx(n, b1, d)); }
      for (int d = 0; d < L::D; ++d) { s -= B[d][i] * kin[d]; e += B[d][i] * rel[d]; }
      vc_eq(s, e, "contact Jacobian action equals relative velocity in the contact basis");
    }
  }
  void friction(bool disk)
  {
    const Constraint& k = c;
    if (flags & HAS_T) for (int s = 1; s < L::D; ++s) {
      VectorXs t(L::D); for (int d = 0; d < L::D; ++d) t(d) = B[d][s];
      SparseMatrixsc T = vc_sparse(n * L::V, k.frictionStencilSize());
      k.computeGeneralizedFrictionGivenTangentSample(q, t, 1, T);
      Column<L> J(T, 1, n, b0, b1, "friction direction touches only the reported bodies");
      vc_othercols(T, "friction direction touches only its own column");
      vc_eqi(J.cnt, k.frictionStencilSize(), "friction stencil size is the number of entries");
      double e = 0;
      for (int d = 0; d < L::D; ++d) e += t(d) * (rel[d] + kin[d]);
      vc_eq(J.dot(v, n, b0, b1), e, "friction direction is the dual of the tangential relative velocity");
    }
  }
  // the sampled friction disk: columns c0 .. c0+ns-1
  void disk(int ns)
  {
    const Constraint& k = c;
    if (!(flags & HAS_D)) return;
    const int c0 = 1;
    SparseMatrixsc T(int(n * L::V), ns + 2);
    VectorXi nz(ns + 2); for (int i = 0; i < ns + 2; ++i) nz(i) = k.frictionStencilSize();
    T.reserve(nz);
    VectorXs drel(ns + 2); for (int i = 0; i < ns + 2; ++i) drel(i) = 7;
    k.computeGeneralizedFrictionDisk(q, v, c0, ns, T, drel);
    for (int out = 0; out < 2; ++out) {
      long cnt = 0; const int col = out ? ns + 1 : 0;
      for (SparseMatrixsc::InnerIterator it(T, col); it; ++it) ++cnt;
      vc_eqi(cnt, 0, "friction disk touches only its own columns"); vc_eq(drel(col), 7, "friction disk writes only its own slots");
    }
    double first[3] = {0, 0, 0};
    for (int a = 0; a < ns; ++a) {
      Column<L> J(T, c0 + a, n, b0, b1, "friction disk touches only the reported bodies");
      vc_eqi(J.cnt, k.frictionStencilSize(), "friction stencil size is the number of disk entries");
      double t[3] = {0, 0, 0}, e = 0, kd = 0, tt = 0, tn = 0;
      for (int d = 0; d < L::D; ++d) { t[d] = J.J[0][d]; e += t[d] * (rel[d] + kin[d]); kd += t[d] * kin[d]; tt += t[d] * t[d]; tn += t[d] * nrm[d]; }
      vc_eq(tt, 1.0, "friction sample has unit length");
      vc_eq(tn, 0.0, "friction sample is orthogonal to the contact normal");
      vc_eq(J.dot(v, n, b0, b1), e, "friction disk column is the dual of the tangential relative velocity");
      vc_eq(drel(c0 + a), -kd, "friction disk kinematic relative velocity");
      if (a == 0 && L::D == 3) { vc_name("t0", t, 3, 1); for (int d = 0; d < 3; ++d) first[d] = t[d]; }
      if (a > 0 && L::D == 3) {
        const double th = 2.0 * PI<scalar> * double(a) / double(ns);
        for (int d = 0; d < 3; ++d) vc_eq(t[d], std::cos(th) * first[d] + std::sin(th) * (nrm[(d + 1) % 3] * first[(d + 2) % 3] - nrm[(d + 2) % 3] * first[(d + 1) % 3]), "friction samples are evenly spaced about the normal");
      }
    }
  }
  void basis()
  {
    contactBasis();
    for (int i = 0; i < L::D; ++i) {
      vc_eq(B[i][0], nrm[i], "first basis axis is the contact normal");
      for (int j = 0; j <= i; ++j) { double s = 0; for (int d = 0; d < L::D; ++d) s += B[d][i] * B[d][j]; vc_eq(s, i == j ? 1.0 : 0.0, "contact basis is orthonormal"); }
    }
    if (L::D == 2) vc_eq(B[0][0] * B[1][1] - B[0][1] * B[1][0], 1.0, "contact basis is right-handed");
    else vc_eq(B[0][0] * (B[1][1] * B[2][2] - B[1][2] * B[2][1]) - B[0][1] * (B[1][0] * B[2][2] - B[1][2] * B[2][0]) + B[0][2] * (B[1][0] * B[2][1] - B[1][1] * B[2][0]), 1.0, "contact basis is right-handed");
  }
  // momentum of a column of unit impulse
  void momentum(const Column<L>& J, bool lin, bool ang, const char* ll, const char* la)
  {
    if (lin) for (int d = 0; d < L::D; ++d) vc_eq(J.J[0][d] + J.J[1][d], 0.0, ll);
    if (ang) {
      if (L::D == 2) {
        double s = 0;
        long qs = L::V;
        s += q(qs * b0) * J.J[0][1] - q(qs * b0 + 1) * J.J[0][0];
        if (b1 >= 0) s += q(qs * b1) * J.J[1][1] - q(qs * b1 + 1) * J.J[1][0];
        if (L::V == 3) { s += J.J[0][2]; s += J.J[1][2]; }
        vc_eq(s, 0.0, la);
      } else {
        for (int d = 0; d < 3; ++d) {
          int a = (d + 1) % 3, b = (d + 2) % 3;
          double s = q(3 * b0 + a) * J.J[0][b] - q(3 * b0 + b) * J.J[0][a] + J.J[0][3 + d];
          if (b1 >= 0) s += q(3 * b1 + a) * J.J[1][b] - q(3 * b1 + b) * J.J[1][a] + J.J[1][3 + d];
          vc_eq(s, 0.0, la);
        }
      }
    }
  }
  void momenta()
  {
    const Constraint& k = c;
    bool lin = k.conservesTranslationalMomentum(), ang = k.conservesAngularMomentumUnderImpact(), angf = k.conservesAngularMomentumUnderImpactAndFriction();
    vc_assert(!angf || ang, "conserving under impact and friction implies conserving under impact");
    if (flags & HAS_G) {
      SparseMatrixsc G = vc_sparse(n * L::V, k.impactStencilSize());
      k.evalgradg(q, 1, G, vc_anysys());
      Column<L> J(G, 1, n, b0, b1, "normal impulse touches only the reported bodies");
      momentum(J, lin, ang, "normal impulse conserves linear momentum", "normal impulse conserves angular momentum");
    }
    if (flags & HAS_T) for (int s = 1; s < L::D; ++s) {
      VectorXs t(L::D); for (int d = 0; d < L::D; ++d) t(d) = B[d][s];
      SparseMatrixsc T = vc_sparse(n * L::V, k.frictionStencilSize());
      k.computeGeneralizedFrictionGivenTangentSample(q, t, 1, T);
      Column<L> J(T, 1, n, b0, b1, "friction impulse touches only the reported bodies");
      momentum(J, lin, angf, "friction impulse conserves linear momentum", "friction impulse conserves angular momentum");
    }
    if (flags & HAS_H) {
      MatrixXXsc H0(L::D, L::V), H1(L::D, L::V);
      for (int i = 0; i < L::D; ++i) for (int j = 0; j < L::V; ++j) { H0(i, j) = 0; H1(i, j) = 0; }
      k.evalH(q, frameMatrix(), H0, H1);
      for (int i = 0; i < L::D; ++i) {
        SparseMatrixsc none(1, 1);
        Column<L> J(none, 0, n, b0, b1, "");
        for (int d = 0; d < L::V; ++d) { J.J[0][d] = H0(i, d); J.J[1][d] = b1 >= 0 ? -H1(i, d) : 0.0; }
        momentum(J, lin, i == 0 ? ang : angf, "impulse through the contact Jacobian conserves linear momentum", "impulse through the contact Jacobian conserves angular momentum");
      }
    }
  }
};
#endif
