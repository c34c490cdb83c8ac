#ifndef VC_STR_H
#define VC_STR_H
#include "vc.h"
#include <string>
#include <vector>
// any string of at most hi bytes (any bytes)
inline std::string vc_str(const char* nm, long hi)
{
  const long n = vc_size(nm, 0, hi);
  std::string s(size_t(n), 'x');
  for (long i = 0; i < n; ++i) s[size_t(i)] = char(vc_char(nm));
  return s;
}
inline bool vc_white(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
// a is b byte for byte
inline void vc_same(const std::string& a, const std::string& b, const char* l)
{
  vc_eqi(long(a.size()), long(b.size()), l);
  for (size_t i = 0; i < b.size(); ++i) vc_assert(a[i] == b[i], l);
}
#endif
