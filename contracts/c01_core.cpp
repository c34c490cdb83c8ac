// Round trip of the building blocks every checkpoint is made of.
#include "ser.h"
#include "scisim/StringUtilities.h"
#include "scisim/Utilities.h"
#include "scisim/Math/MathUtilities.h"
// BOUND (?!anyLength).* 3 5
VC(scalars)
{
  std::ostream& o = vc_os(1);
  const scalar a = vc_real("a"); const long b = vc_int("b", -1000000000, 1000000000); const unsigned c = unsigned(vc_int("c", 0, 4294967295)); const bool d = vc_bool("d") != 0;
  Utilities::serialize(a, o); Utilities::serialize(int(b), o); Utilities::serialize(c, o); Utilities::serialize(d, o);
  std::istream& i = vc_is(1);
  vc_sm(Utilities::deserialize<scalar>(i), a);
  vc_smi(Utilities::deserialize<int>(i), b);
  vc_smi(Utilities::deserialize<unsigned>(i), c);
  vc_smi(Utilities::deserialize<bool>(i), d);
  vc_stream_done(1);
  vc_cover("done");
}
VC(strings)
{
  const std::string s = vc_str("s", 20), t = vc_str("t", 20);
  StringUtilities::serialize(s, vc_os(1)); StringUtilities::serialize(t, vc_os(1));
  vc_same(StringUtilities::deserialize(vc_is(1)), s, "strings round trip");
  vc_same(StringUtilities::deserialize(vc_is(1)), t, "strings round trip");
  vc_stream_done(1);
  vc_cover("done");
}
VC(stringVectors)
{
  const long n = vc_size("n", 0, 6);
  std::vector<std::string> v;
  for (long i = 0; i < n; ++i) v.push_back(vc_str("s", 12));
  StringUtilities::serializeVector(v, vc_os(1));
  const std::vector<std::string> w = StringUtilities::deserializeVector(vc_is(1));
  vc_stream_done(1);
  vc_smi(long(w.size()), n);
  for (long i = 0; i < n; ++i) vc_same(w[size_t(i)], v[size_t(i)], "vectors of strings round trip");
  vc_cover("done");
}
VC(bools)
{
  const long n = vc_size("n", 0, 80);
  std::vector<bool> v;
  for (long i = 0; i < n; ++i) v.push_back(vc_bool("v") != 0);
  Utilities::serialize(v, vc_os(1));
  const std::vector<bool> w = Utilities::deserialize<std::vector<bool>>(vc_is(1));
  vc_stream_done(1);
  vc_smb(v, w);
  vc_cover("done");
}
VC(trivialVectors)
{
  const long n = vc_size("n", 0, 30);
  std::vector<scalar> v; std::vector<unsigned> u;
  for (long i = 0; i < n; ++i) { v.push_back(vc_real("v")); u.push_back(unsigned(vc_int("u", 0, 4294967295))); }
  Utilities::serialize(v, vc_os(1)); Utilities::serialize(u, vc_os(1));
  const auto w = Utilities::deserialize<std::vector<scalar>>(vc_is(1)); const auto x = Utilities::deserialize<std::vector<unsigned>>(vc_is(1));
  vc_stream_done(1);
  vc_smb(v, w); vc_smb(u, x);
  vc_cover("done");
}
VC(denseFixed)
{
  Vector2s a = vc_vec2("a"); Vector3s b = vc_vec3("b"); Matrix3s c; vc_fill("c", c.data(), 9); Matrix33sr d; vc_fill("d", d.data(), 9); Vector3u e; vc_fill_u32("e", e.data(), 3, 0, 4294967295);
  std::ostream& o = vc_os(1);
  MathUtilities::serialize(a, o); MathUtilities::serialize(b, o); MathUtilities::serialize(c, o); MathUtilities::serialize(d, o); MathUtilities::serialize(e, o);
  std::istream& i = vc_is(1);
  vc_smd(MathUtilities::deserialize<Vector2s>(i), a); vc_smd(MathUtilities::deserialize<Vector3s>(i), b); vc_smd(MathUtilities::deserialize<Matrix3s>(i), c);
  vc_smd(MathUtilities::deserialize<Matrix33sr>(i), d); vc_smd(MathUtilities::deserialize<Vector3u>(i), e);
  vc_stream_done(1);
  vc_cover("done");
}
VC(denseDynamic)
{
  const long n = vc_size("n", 0, 30), m = vc_size("m", 0, 10);
  const VectorXs a = vc_vecx("a", n);
  VectorXu b(m); vc_fill_u32("b", b.data(), m, 0, 4294967295);
  Matrix3Xsc c(3, n); vc_fill("c", c.data(), 3 * n);
  Matrix3Xuc d(3, m); vc_fill_u32("d", d.data(), 3 * m, 0, 4294967295);
  std::ostream& o = vc_os(1);
  MathUtilities::serialize(a, o); MathUtilities::serialize(b, o); MathUtilities::serialize(c, o); MathUtilities::serialize(d, o);
  std::istream& i = vc_is(1);
  vc_smd(MathUtilities::deserialize<VectorXs>(i), a); vc_smd(MathUtilities::deserialize<VectorXu>(i), b);
  vc_smd(MathUtilities::deserialize<Matrix3Xsc>(i), c); vc_smd(MathUtilities::deserialize<Matrix3Xuc>(i), d);
  vc_stream_done(1);
  vc_cover("done");
}
VC(sparse)
{
  const long r = vc_size("r", 0, 6), c = vc_size("c", 0, 6);
  SparseMatrixsc A{r, c};
  for (long j = 0; j < c; ++j) for (long i = 0; i < r; ++i) if (vc_bool("nz")) A.insert(i, j) = vc_real("v");
  A.makeCompressed();
  MathUtilities::serialize(A, vc_os(1));
  SparseMatrixsc B{2, 1}; B.insert(0, 0) = 3.0;
  MathUtilities::deserialize(B, vc_is(1));
  vc_stream_done(1);
  vc_sms(A, B);
  vc_cover("done");
}
// every length at once: an arbitrary entry of vectors of arbitrary length
VC(anyLengthDense)
{
  const long n = vc_size("n", 0, 1000000); const long k = vc_int("k", 0, 1000000);
  const VectorXs a = vc_vecx("a", n);
  const scalar tail = vc_real("tail");
  MathUtilities::serialize(a, vc_os(1)); Utilities::serialize(tail, vc_os(1));
  const VectorXs b = MathUtilities::deserialize<VectorXs>(vc_is(1));
  vc_sm(Utilities::deserialize<scalar>(vc_is(1)), tail);
  vc_stream_done(1);
  vc_smi(a.size(), b.size());
  if (k < n) vc_sm(a(k), b(k));
  vc_cover("done");
}
VC(anyLengthVector)
{
  const long n = vc_size("n", 0, 1000000); const long k = vc_int("k", 0, 1000000);
  std::vector<scalar> a(static_cast<size_t>(n)); vc_fill("a", a.data(), n);
  const unsigned tail = unsigned(vc_int("tail", 0, 4294967295));
  Utilities::serialize(a, vc_os(1)); Utilities::serialize(tail, vc_os(1));
  const std::vector<scalar> b = Utilities::deserialize<std::vector<scalar>>(vc_is(1));
  vc_smi(Utilities::deserialize<unsigned>(vc_is(1)), tail);
  vc_stream_done(1);
  vc_smi(long(a.size()), long(b.size()));
  if (k < n) vc_sm(a[size_t(k)], b[size_t(k)]);
  vc_cover("done");
}
VC(anyLength3X)
{
  const long n = vc_size("n", 0, 300000); const long k = vc_int("k", 0, 300000); const long c = vc_choose("c", 3);
  Matrix3Xsc a(3, n); vc_fill("a", a.data(), 3 * n);
  MathUtilities::serialize(a, vc_os(1));
  const Matrix3Xsc b = MathUtilities::deserialize<Matrix3Xsc>(vc_is(1));
  vc_stream_done(1);
  vc_smi(a.cols(), b.cols());
  if (k < n) vc_sm(a(c, k), b(c, k));
  vc_cover("done");
}
