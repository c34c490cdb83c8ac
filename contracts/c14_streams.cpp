// Helpers built on the standard streams (the stream library exists only as machine code here): executed natively only.
#include "eig.h"
#include "str.h"
#include "scisim/StringUtilities.h"
#include <cmath>
#include <limits>
// NATIVEONLY .*
// TRIALS .* 2000
VC(padWithZeros)
{
  const std::string s = vc_str("s", 12);
  const long w = vc_int("w", 0, 20);
  const std::string r = StringUtilities::padWithZeros(s, unsigned(w));
  const long n = long(s.size());
  vc_eqi(long(r.size()), n < w ? w : n, "padded width");
  for (long i = 0; i < long(r.size()) - n; ++i) vc_assert(r[size_t(i)] == '0', "padding is zeros in front");
  vc_same(r.substr(r.size() - s.size()), s, "padding keeps the text");
}
VC(convertInt)
{
  const long v = vc_int("v", -2147483647, 2147483647);
  const std::string s = StringUtilities::convertToString(int(v));
  int out = 77;
  vc_assert(StringUtilities::extractFromString(s, out), "a printed integer is readable");
  vc_eqi(out, v, "a printed integer reads back as itself");
  vc_same(s, std::to_string(v), "integers are printed in decimal");
}
VC(extractScalar)
{
  const long v = vc_int("v", -1000000, 1000000); const long dec = vc_int("dec", 0, 9);
  const std::string s = std::to_string(v) + "." + std::to_string(dec);
  double out = 5;
  vc_assert(StringUtilities::extractScalarFromString(s, out), "a decimal is readable");
  vc_eq(out, double(v) + (v < 0 ? -1 : 1) * double(dec) / 10.0, "a decimal reads as its value");
  double inf = 0;
  vc_assert(StringUtilities::extractScalarFromString(std::string("inf"), inf) && std::isinf(inf) && inf > 0, "inf is readable");
  vc_assert(StringUtilities::extractScalarFromString(std::string("-inf"), inf) && std::isinf(inf) && inf < 0, "-inf is readable");
  vc_assert(!StringUtilities::extractScalarFromString(std::string("abc"), out), "text is not a scalar");
  vc_assert(!StringUtilities::extractScalarFromString(std::string(""), out), "the empty string is not a scalar");
}
VC(readScalarList)
{
  const long n = vc_size("n", 1, 8), want = vc_size("want", 1, 8);
  const char d = " ,;"[vc_choose("delim", 3)];
  std::string text; std::vector<long> v;
  for (long i = 0; i < n; ++i) { v.push_back(vc_int("v", -500, 500)); if (i) text.push_back(d); text += std::to_string(v.back()); }
  VectorXs out;
  const bool ok = StringUtilities::readScalarList(text, unsigned(want), d, out);
  vc_assert(ok == (n == want), "a list is accepted exactly when it has the requested length");
  if (ok) { vc_eqi(out.size(), n, "all entries are returned"); for (long i = 0; i < n; ++i) vc_eq(out(i), double(v[size_t(i)]), "entries keep their order and value"); }
}
