// C05: XML character classes, NCName/QName tests and qualified name parsing against the XML 1.0
// productions (reference tables in xmlchars_ref.h).
#include <iostream>
#include "symx.h"
#include "xmlchars_ref.h"
#include <SAX/ArabicaConfig.hpp>
#include <XML/XMLCharacterClasses.hpp>
#include <XML/strings.hpp>
#include <XML/QName.hpp>
#include <map>
using namespace Arabica;

template<size_t N> static unsigned in(const unsigned (&t)[N][2], unsigned c) { // branch free: one formula, not one path per range
  unsigned r = 0;
  for (size_t i = 0; i < N; ++i) r |= (unsigned)(c - t[i][0] <= t[i][1] - t[i][0]);
  return r;
}
static unsigned base(unsigned c) { return in(ref_base_ranges, c); }
static unsigned letter(unsigned c) { return base(c) | in(ref_ideo_ranges, c); }
static unsigned ncname_char(unsigned c) { return letter(c) | in(ref_digit_ranges, c) | in(ref_comb_ranges, c) | in(ref_ext_ranges, c) | (c == '.') | (c == '-') | (c == '_'); }

static void classes() {
  unsigned c = symx_byte() | symx_byte() << 8 | symx_byte() << 16;
  symx_assume(c < 0x110000);
  symx_note("code point %#x", c);
  wchar_t w = (wchar_t)c;
  unsigned got, want;
  switch (symx_pick(11)) {
    case 0: got = XML::is_base_char(w); want = base(c); break;
    case 1: got = XML::is_ideographic(w); want = in(ref_ideo_ranges, c); break;
    case 2: got = XML::is_letter(w); want = letter(c); break;
    case 3: got = XML::is_digit(w); want = in(ref_digit_ranges, c); break;
    case 4: got = XML::is_combining_char(w); want = in(ref_comb_ranges, c); break;
    case 5: got = XML::is_extender(w); want = in(ref_ext_ranges, c); break;
    case 6: got = XML::is_letter_or_digit(w); want = letter(c) | in(ref_digit_ranges, c); break;
    case 7: got = XML::is_ncname_char(w); want = ncname_char(c); break;
    case 8: got = XML::is_name_char(w); want = ncname_char(c) | (c == ':'); break;
    case 9: got = XML::is_char(w); want = (c == 9) | (c == 10) | (c == 13) | (c - 0x20 <= 0xD7FF - 0x20) | (c - 0xE000 <= 0xFFFD - 0xE000) | (c - 0x10000 <= 0xFFFFF); break;
    default: got = XML::is_space(w); want = (c == 9) | (c == 10) | (c == 13) | (c == 32); break;
  }
  symx_check(got == want, "character class");
  symx_reach("classes");
}

template<class S> static bool ref_ncname(const S &s, size_t b, size_t e) {
  if (b == e) return false;
  for (size_t i = b; i < e; ++i) {
    unsigned c = (unsigned)s[i];
    unsigned ok = i == b ? (letter(c) | (c == '_')) : ncname_char(c);
    if (!ok) return false;
  }
  return true;
}
template<class S> static bool ref_qname(const S &s, size_t &colon) {
  colon = S::npos;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == ':') { colon = i; break; }
  if (colon == S::npos) return ref_ncname(s, 0, s.size());
  return ref_ncname(s, 0, colon) && ref_ncname(s, colon + 1, s.size());
}

template<class S> static void names(const S &s) {
  typedef default_string_adaptor<S> SA;
  size_t colon;
  bool q = ref_qname(s, colon);
  symx_check(XML::is_qname<SA>(s) == q, "is_qname");
  symx_check(XML::is_ncname<SA>(s) == ref_ncname(s, 0, s.size()), "is_ncname");
  if (q) symx_reach("qname");
}

static void parse() { // resolution of prefixes: declared names and the parsed name are symbolic
  typedef default_string_adaptor<std::string> SA;
  typedef XML::QualifiedName<std::string> QN;
  std::map<std::string, std::string> ns;
  bool dflt = symx_pick(2);
  if (dflt) ns[""] = "urn:default";
  std::string p1 = "p";
  p1[0] = symx_in("pq", 2);
  ns[p1] = "urn:1";
  ns["r"] = "urn:2";
  std::string s = symx_string(symx_param("N", 4));
  for (size_t i = 0; i < s.size(); ++i) symx_assume((s[i] >= 'p' && s[i] <= 'r') || s[i] == ':' || s[i] == '1' || s[i] == '-');
  size_t n = symx_pick(s.size() + 1);
  s.resize(n);
  bool attr = symx_pick(2);
  size_t colon;
  bool ok = ref_qname(s, colon);
  symx_note("name '%s', p1 '%s'", s.c_str(), p1.c_str());
  try {
    QN qn = QN::parseQName(s, attr, ns);
    symx_check(ok, "malformed name accepted");
    std::string prefix = colon == std::string::npos ? "" : s.substr(0, colon), local = colon == std::string::npos ? s : s.substr(colon + 1);
    std::string uri;
    if (prefix.empty()) uri = !attr && dflt ? "urn:default" : "";
    else if (prefix == p1) uri = "urn:1";
    else if (prefix == "r") uri = "urn:2";
    symx_check(qn.prefix() == prefix, "prefix");
    symx_check(qn.localName() == local, "local name");
    symx_check(qn.rawName() == s, "raw name");
    symx_check(qn.namespaceUri() == uri, "namespace");
    symx_check(qn.has_prefix() == !prefix.empty(), "has_prefix");
    symx_check(qn.clarkName() == (uri.empty() ? local : "{" + uri + "}" + local), "clark name");
    QN other = QN::parseQName("r:" + local, false, ns);
    symx_check((qn == other) == (uri == "urn:2"), "equality ignores prefixes and nothing else");
    symx_check((qn != other) == !(qn == other), "inequality");
    symx_reach("parsed");
  } catch (const std::runtime_error &) {
    symx_check(!ok, "well formed name refused");
    symx_reach("refused");
  }
}

static void narrow() { // a name in UTF-8: an arbitrary byte sequence that starts outside ASCII, where a name starts or goes on
  typedef default_string_adaptor<std::string> SA;
  size_t n = 1 + symx_pick(symx_param("BYTES", 3)), before = symx_pick(n < 3 ? 3 : symx_param("CONTEXTS", 1)), after = n < 3 ? symx_pick(2) : 1;
  std::string c = symx_string(n);
  symx_assume((c[0] & 0x80) != 0);
  if (n > 2 && symx_param("CONTEXTS", 1) == 1) symx_assume(c[0] == '\xE0' || c[0] == '\xE3' || c[0] == '\xED' || c[0] == '\xEF' || c[0] == '\xF0' || c[0] == '\x80');
  if (n > 1) symx_assume((c[1] & 0xC0) == 0x80 || (c[1] >= 'X' && c[1] <= '_'));
  if (n > 2) symx_assume((c[2] & 0xC0) == 0x80 || c[2] == '-');
  if (n > 3) symx_assume((c[3] & 0x80) != 0);
  std::string s = std::string(before == 0 ? "" : before == 1 ? "a" : "p:") + c + (after ? "b" : "");
  std::u32string u; bool good = true;
  for (size_t i = 0; i < s.size() && good; ) {
    unsigned a = (unsigned char)s[i], b = i + 1 < s.size() ? (unsigned char)s[i + 1] : 0, d = i + 2 < s.size() ? (unsigned char)s[i + 2] : 0, e = i + 3 < s.size() ? (unsigned char)s[i + 3] : 0;
    if (a < 0x80) { u += a; ++i; }
    else if (a < 0xE0) { good = a >= 0xC2 && b >> 6 == 2; u += (a & 31) << 6 | (b & 63); i += 2; }
    else if (a < 0xF0) { u += (a & 15) << 12 | (b & 63) << 6 | (d & 63); i += 3; good = b >> 6 == 2 && d >> 6 == 2 && u.back() >= 0x800; }
    else { u += (a & 7) << 18 | (b & 63) << 12 | (d & 63) << 6 | (e & 63); i += 4; good = a < 0xF8 && b >> 6 == 2 && d >> 6 == 2 && e >> 6 == 2; if (good) good = false; } // (no name has a character past U+FFFF)
  }
  size_t colon;
  bool q = good && ref_qname(u, colon);
  symx_note("%zu bytes %02x %02x %02x", s.size(), (unsigned char)c[0], n > 1 ? (unsigned char)c[1] : 0, n > 2 ? (unsigned char)c[2] : 0);
  symx_check(XML::is_qname<SA>(s) == q, "is_qname of UTF-8");
  symx_reach("utf8");
}

void symx_main() {
  switch (symx_pick(5)) {
    case 4: return narrow();
    case 0: return classes();
    case 1: { // ASCII names
      std::string s = symx_string(symx_param("A", 3));
      for (size_t i = 0; i < s.size(); ++i) symx_assume((unsigned char)s[i] < 128);
      s.resize(symx_pick(s.size() + 1));
      return names(s);
    }
    case 2: { // wide names over a character of every kind, in every position
      static const wchar_t rep[] = {L'a', L'Z', L'_', L':', L'-', L'.', L'7', L' ', 0xB7, 0x300, 0x660, 0x4E00, 0x3007, 0x3021, 0xE9, 0xD7, 0x10FFFF, 0xAC00, 0x20E1, 0x3005};
      size_t n = symx_pick(symx_param("W", 2) + 1);
      std::wstring s;
      for (size_t i = 0; i < n; ++i) s += rep[symx_pick(sizeof rep / sizeof *rep)];
      return names(s);
    }
    default: return parse();
  }
}
