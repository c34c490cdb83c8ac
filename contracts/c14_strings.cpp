// String utilities: every byte string up to the stated length (bounded), every separator.
#include "str.h"
#include "scisim/StringUtilities.h"
// BOUND (removeWhiteSpace|trim.*) 3 4
// BOUND .* 5 7
VC(splitAtLast)
{
  const std::string s = vc_str("s", 40);
  const char c = char(vc_char("c"));
  std::string l = "junk", r = "junk";
  StringUtilities::splitAtLastCharacterOccurence(s, l, r, c);
  long last = -1;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == c) last = long(i);
  vc_cover("split");
  if (last < 0) { vc_same(l, s, "without the character the left part is the whole string"); vc_eqi(long(r.size()), 0, "without the character the right part is empty"); }
  else { vc_same(l, s.substr(0, size_t(last)), "left part is everything before the last occurrence"); vc_same(r, s.substr(size_t(last) + 1), "right part is everything after the last occurrence"); }
}
VC(charsToRight)
{
  const std::string s = vc_str("s", 40);
  const char c = char(vc_char("c"));
  long first = -1;
  for (size_t i = s.size(); i-- > 0;) if (s[i] == c) first = long(i);
  vc_cover("counted");
  vc_eqi(long(StringUtilities::computeNumCharactersToRight(s, c)), first < 0 ? 0 : long(s.size()) - first - 1, "number of characters right of the first occurrence");
}
VC(trimFront)
{
  const std::string s = vc_str("s", 40);
  size_t b = 0; while (b < s.size() && vc_white(s[b])) ++b;
  vc_same(StringUtilities::trimFront(s), s.substr(b), "trimFront removes exactly the leading white space");
  vc_cover("done");
}
VC(trimBack)
{
  const std::string s = vc_str("s", 40);
  size_t e = s.size(); while (e > 0 && vc_white(s[e - 1])) --e;
  vc_same(StringUtilities::trimBack(s), s.substr(0, e), "trimBack removes exactly the trailing white space");
  vc_cover("done");
}
VC(trim)
{
  const std::string s = vc_str("s", 40);
  size_t b = 0; while (b < s.size() && vc_white(s[b])) ++b;
  size_t e = s.size(); while (e > b && vc_white(s[e - 1])) --e;
  vc_same(StringUtilities::trim(s), s.substr(b, e - b), "trim removes exactly the leading and trailing white space");
  vc_cover("done");
}
VC(removeWhiteSpace)
{
  const std::string s = vc_str("s", 40);
  std::string w;
  for (size_t i = 0; i < s.size(); ++i) if (!vc_white(s[i])) w.push_back(s[i]);
  vc_same(StringUtilities::removeWhiteSpace(s), w, "removeWhiteSpace keeps exactly the other characters in order");
  vc_cover("done");
}
VC(trimCharacterRight)
{
  const std::string s = vc_str("s", 40);
  const char c = char(vc_char("c"));
  size_t e = s.size(); while (e > 0 && s[e - 1] == c) --e;
  vc_same(StringUtilities::trimCharacterRight(s, c), s.substr(0, e), "trimCharacterRight removes exactly the trailing characters");
  vc_cover("done");
}
VC(tokenize)
{
  const std::string s = vc_str("s", 40);
  const char c = char(vc_char("c"));
  const std::vector<std::string> t = StringUtilities::tokenize(s, c);
  std::vector<std::string> t2; StringUtilities::tokenize(s, c, t2);
  vc_cover("tokenized");
  size_t pos = 0; long seps = 0;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == c) ++seps;
  if (s.empty()) { vc_eqi(long(t.size()), 0, "the empty string has no tokens"); return; }
  vc_eqi(long(t.size()), seps + 1, "one more token than separators");
  vc_eqi(long(t2.size()), seps + 1, "one more token than separators (output argument)");
  for (size_t k = 0; k < t.size(); ++k) {
    const size_t len = t[k].size();
    vc_assert(pos + len <= s.size(), "tokens lie inside the string");
    for (size_t i = 0; i < len; ++i) { vc_assert(t[k][i] == s[pos + i], "tokens are the consecutive pieces of the string"); vc_assert(t[k][i] != c, "no token contains the separator"); }
    vc_same(t2[k], t[k], "both tokenizers agree");
    pos += len;
    if (k + 1 < t.size()) { vc_assert(pos < s.size() && s[pos] == c, "pieces are separated by the separator"); ++pos; }
  }
  vc_eqi(long(pos), long(s.size()), "nothing of the string is lost");
}
