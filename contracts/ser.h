// Round-trip vocabulary: equality of every kind of data a checkpoint stores (exact, no tolerance).
#ifndef VC_SER_H
#define VC_SER_H
#include "eig.h"
#include "str.h"
#include <memory>
#include <ostream>
#include <istream>
#ifndef VC_SAME
#define VC_SAME "deserialization reconstructs an equal object"
#endif
inline void vc_sm(scalar a, scalar b) { vc_assert(a == b, VC_SAME); }
inline void vc_smi(long a, long b) { vc_eqi(a, b, VC_SAME); }
template <class A, class B> void vc_smd(const Eigen::DenseBase<A>& a, const Eigen::DenseBase<B>& b)
{
  vc_smi(a.rows(), b.rows()); vc_smi(a.cols(), b.cols());
  for (long j = 0; j < a.cols(); ++j) for (long i = 0; i < a.rows(); ++i) vc_assert(a.derived().coeff(i, j) == b.derived().coeff(i, j), VC_SAME);
}
// the same for vectors of any length: one arbitrary entry stands for all of them
template <class A, class B> void vc_sma(const A& a, const B& b)
{
  vc_smi(a.size(), b.size());
  if (vc_native()) { vc_smd(a, b); return; }
  const long k = vc_int("k", 0, 1L << 40); if (k >= a.size()) return;
  vc_assert(a.data()[k] == b.data()[k], VC_SAME);
}
inline void vc_sms(const SparseMatrixsc& a, const SparseMatrixsc& b)
{
  vc_smi(a.rows(), b.rows()); vc_smi(a.cols(), b.cols()); vc_smi(a.nonZeros(), b.nonZeros());
  vc_assert(b.isCompressed(), "a deserialized sparse matrix is compressed");
  for (long j = 0; j <= a.cols(); ++j) vc_assert(a.outerIndexPtr()[j] == b.outerIndexPtr()[j], VC_SAME);
  for (long k = 0; k < a.nonZeros(); ++k) { vc_assert(a.innerIndexPtr()[k] == b.innerIndexPtr()[k], VC_SAME); vc_assert(a.valuePtr()[k] == b.valuePtr()[k], VC_SAME); }
}
template <class V> void vc_smb(const V& a, const V& b)
{
  vc_smi(long(a.size()), long(b.size()));
  for (size_t i = 0; i < a.size(); ++i) vc_assert(a[i] == b[i], VC_SAME);
}
// a private data member, if the class still has one of that name (the contracts do not depend on it)
#define VC_FIELD(f) \
  template <class T> auto vc_cmp_##f(const T& a, const T& b, int) -> decltype(a.f == b.f, void()) { vc_assert(a.f == b.f, VC_SAME); } \
  template <class T> void vc_cmp_##f(const T&, const T&, long) {}
#define VC_FIELDA(f) \
  template <class T> auto vc_cmp_##f(const T& a, const T& b, int) -> decltype(a.f.rows() + b.f.rows(), void()) { vc_sma(a.f, b.f); } \
  template <class T> void vc_cmp_##f(const T&, const T&, long) {}
#define VC_CMPF(f, a, b) vc_cmp_##f(a, b, 0)
#endif
