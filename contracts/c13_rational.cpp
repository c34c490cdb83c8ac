// Rational<T>: canonical form and exact arithmetic.  The Euclidean loop is executed on enumerated small operands (bounded).
#include "vc.h"
#include <algorithm>
#include <cassert>
#include <cstdint>
#include "scisim/Math/Rational.h"
// BOUND .* 0
// SECS .* 200
// TRIALS .* 3000
static long num(const char* n, long r) { return vc_native() ? vc_int(n, -1000, 1000) : vc_choose(n, 2 * r + 1) - r; }
static long gcd(long a, long b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { long t = a % b; a = b; b = t; } return a; }
static void canonical(long n, long d) { vc_assert(d > 0, "denominator is positive"); vc_assert(gcd(n, d) == 1, "lowest terms"); }
template<typename T> static void isValue(const Rational<T>& r, long n, long d, const char* l) { canonical(r.numerator(), r.denominator()); vc_eqi(long(r.numerator()) * d, n * long(r.denominator()), l); }
VC(construct)
{
  const long n = num("n", 12), d = num("d", 12); vc_assume(d != 0);
  const Rational<int> r{ int(n), int(d) };
  vc_cover("constructed");
  isValue(r, n, d, "value of numerator / denominator");
  Rational<std::intmax_t> s; s.set(n, d);
  isValue(s, n, d, "value set");
  vc_assert(r.positive() == (n * d > 0), "positive");
  vc_assert(r.nonNegative() == (n * d >= 0), "nonNegative");
  vc_assert(r.isInteger() == (n % d == 0), "isInteger");
  vc_eq(double(r) * double(d), double(n), "conversion to double");
  vc_assert(r == Rational<int>{ int(-n), int(-d) }, "equal values compare equal");
  vc_assert(r == Rational<int>{ int(3 * n), int(3 * d) }, "equal values compare equal after scaling");
}
VC(defaulted) { const Rational<int> z; vc_eqi(z.numerator(), 0, "default is zero"); vc_eqi(z.denominator(), 1, "default denominator is one"); const Rational<int> k{ 5 }; vc_eqi(k.numerator(), 5, "integer value"); vc_eqi(k.denominator(), 1, "integer denominator"); }
VC(arithmetic)
{
  const long a = num("a", 4), b = num("b", 3), c = num("c", 4), d = num("d", 3);
  vc_assume(b != 0); vc_assume(d != 0);
  const Rational<long> x{ a, b }, y{ c, d };
  vc_cover("operands");
  Rational<long> s = x; s += y; isValue(s, a * d + c * b, b * d, "sum");
  Rational<long> m = x; m -= y; isValue(m, a * d - c * b, b * d, "difference");
  Rational<long> p = x; p *= y; isValue(p, a * c, b * d, "product");
  if (c != 0) { Rational<long> q = x; q /= y; isValue(q, a * d, b * c, "quotient"); }
  vc_assert((x == y) == (a * d == c * b), "equality is equality of values");
  vc_assert((x != y) == (a * d != c * b), "inequality is inequality of values");
  isValue(s -= y, a, b, "subtracting what was added");
}
VC(mixed)
{
  const long a = num("a", 6), b = num("b", 5), k = num("k", 5); vc_assume(b != 0);
  const Rational<long> x{ a, b };
  vc_cover("operands");
  isValue(x * k, a * k, b, "rational times integer"); isValue(k * x, a * k, b, "integer times rational");
  if (k != 0) isValue(x / k, a, b * k, "rational over integer");
  if (a != 0) isValue(k / x, k * b, a, "integer over rational");
  vc_assert((x == k) == (a == k * b), "comparison with an integer"); vc_assert((k == x) == (a == k * b), "comparison of an integer");
}
