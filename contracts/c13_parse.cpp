// Parsing goes through the standard string streams (machine code only): executed natively.
#include "str.h"
#include <algorithm>
#include <cassert>
#include "scisim/Math/Rational.h"
// NATIVEONLY .*
// TRIALS .* 4000
static std::string blanks() { return std::string(size_t(vc_choose("sp", 4) == 0 ? vc_int("nsp", 0, 2) : 0), ' '); }
static std::string sgnOf(long& s) { long k = vc_choose("sign", 3); s = k == 2 ? -1 : 1; return k == 0 ? "" : k == 1 ? "+" : "-"; }
VC(decimal)
{
  long s; std::string t = blanks() + sgnOf(s) + blanks();
  const long i = vc_choose("zero", 3) == 0 ? 0 : vc_int("i", 0, 9999), digits = vc_int("digits", 0, 4);
  long frac = 0, den = 1; std::string f;
  for (long k = 0; k < digits; ++k) { long d = vc_int("d", 0, 9); frac = frac * 10 + d; den *= 10; f.push_back(char('0' + d)); }
  const bool omit = i == 0 && digits > 0 && vc_bool("omit");
  if (!omit) t += std::to_string(i);
  if (digits > 0 || vc_bool("point")) t += "." + f;
  t += blanks();
  Rational<long> r{ 7, 3 };
  vc_assert(extractFromString(t, r), "a decimal is accepted");
  vc_eqi(r.numerator() * den, s * (i * den + frac) * r.denominator(), "a decimal parses to exactly the written value");
  vc_assert(r.denominator() > 0, "parsed denominator is positive");
}
VC(fraction)
{
  long s; std::string t = blanks() + sgnOf(s);
  const long n = vc_int("n", 0, 9999), d = vc_int("d", 0, 999);
  t += std::to_string(n) + blanks() + "/" + blanks() + std::to_string(d) + blanks();
  Rational<long> r{ 7, 3 };
  const bool ok = extractFromString(t, r);
  vc_assert(ok == (d != 0), "a fraction is accepted exactly when its denominator is not zero");
  if (ok) { vc_eqi(r.numerator() * d, s * n * r.denominator(), "a fraction parses to exactly the written value"); vc_assert(r.denominator() > 0, "parsed denominator is positive"); }
}
VC(malformed)
{
  const long a = vc_int("a", 0, 99), b = vc_int("b", 0, 99), c = vc_int("c", 1, 99);
  const std::string A = std::to_string(a), B = std::to_string(b), C = std::to_string(c);
  std::string t;
  switch (vc_choose("kind", 8)) {
    case 0: t = A + "/" + B + "/" + C; break; case 1: t = A + "." + B + "." + C; break; case 2: t = A + "." + B + "/" + C; break;
    case 3: t = A + "/" + C + "." + B; break; case 4: t = "x" + A; break; case 5: t = "/" + C; break; case 6: t = A + "/"; break; default: t = A + "/x"; break;
  }
  Rational<long> r{ 7, 3 };
  vc_assert(!extractFromString(t, r), "malformed numbers are rejected");
}
