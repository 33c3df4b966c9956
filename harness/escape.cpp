// C06: escaping and whitespace normalisation. The oracle is an XML 1.0 reader for character data
// and attribute values (line end normalisation, attribute value normalisation, references).
#include <iostream>
#include <sstream>
#include <algorithm>
#include "symx.h"
#include <SAX/ArabicaConfig.hpp>
#include <XML/escaper.hpp>
#include <text/normalize_whitespace.hpp>
using namespace Arabica;

// what an XML processor makes of literal text; returns false if it is not well formed there
static bool xml_read(const std::string &lit, bool attribute, std::string &out) {
  size_t n = lit.size();
  for (size_t i = 0; i < n; ++i) {
    char c = lit[i];
    if (c == '<' || (attribute && c == '"')) return false;
    if (!attribute && c == ']' && i + 2 < n && lit[i + 1] == ']' && lit[i + 2] == '>') return false;
    if (c == '\r') { // 2.11
      if (i + 1 < n && lit[i + 1] == '\n') ++i;
      out += attribute ? ' ' : '\n';
      continue;
    }
    if (attribute && (c == '\t' || c == '\n')) { out += ' '; continue; }
    if (c != '&') { out += c; continue; }
    size_t j = i + 1;
    while (j < n && lit[j] != ';') ++j;
    if (j == n) return false;
    std::string e = lit.substr(i + 1, j - i - 1);
    if (e == "lt") out += '<';
    else if (e == "gt") out += '>';
    else if (e == "amp") out += '&';
    else if (e == "quot") out += '"';
    else if (e == "apos") out += '\'';
    else if (e.size() > 1 && e[0] == '#') {
      unsigned v = 0; bool hex = e[1] == 'x';
      if (hex && e.size() == 2) return false;
      for (size_t k = hex ? 2 : 1; k < e.size(); ++k) {
        char d = e[k]; int x = d >= '0' && d <= '9' ? d - '0' : hex && d >= 'a' && d <= 'f' ? d - 'a' + 10 : hex && d >= 'A' && d <= 'F' ? d - 'A' + 10 : -1;
        if (x < 0) return false;
        v = v * (hex ? 16 : 10) + x;
      }
      if (v > 127) return false;
      out += (char)v;
    } else return false;
    i = j;
  }
  return true;
}

static void escapers(bool attribute) {
  size_t n = symx_pick(symx_param("N", 4) + 1);
  std::string s = symx_string(n);
  for (size_t i = 0; i < n; ++i) symx_assume(s[i] == 9 || s[i] == 10 || s[i] == 13 || (unsigned char)s[i] >= 32);
  std::ostringstream o;
  if (attribute) std::for_each(s.begin(), s.end(), XML::attribute_escaper<char>(o));
  else std::for_each(s.begin(), s.end(), XML::text_escaper<char>(o));
  std::string lit = o.str(), back;
  symx_note("'%s' written as '%s'", s.c_str(), lit.c_str());
  symx_check(xml_read(lit, attribute, back), attribute ? "attribute value not well formed" : "text not well formed");
  symx_check(back == s, attribute ? "attribute value does not read back" : "text does not read back");
  symx_reach(attribute ? "attribute" : "text");
}

static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static void whitespace() {
  size_t n = symx_pick(symx_param("M", 5) + 1);
  std::string s = symx_string(n), want;
  bool pending = false;
  for (size_t i = 0; i < n; ++i) {
    if (space(s[i])) { pending = !want.empty(); continue; }
    if (pending) want += ' ';
    pending = false;
    want += s[i];
  }
  std::string got = text::normalize_whitespace<std::string, default_string_adaptor<std::string> >(s);
  symx_note("'%s' -> '%s'", s.c_str(), got.c_str());
  symx_check(got == want, "normalised whitespace");
  symx_check(text::normalize_whitespace<std::string, default_string_adaptor<std::string> >(got) == got, "idempotent");
  symx_reach("whitespace");
}

void symx_main() {
  unsigned k = symx_pick(3);
  if (k == 2) whitespace(); else escapers(k == 1);
}
