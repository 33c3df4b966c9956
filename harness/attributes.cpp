// C09: AttributesImpl over arbitrary histories against a plain list of records.
#include <iostream>
#include <vector>
#include "symx.h"
#include <SAX/helpers/AttributesImpl.hpp>
typedef Arabica::SAX::AttributesImpl<std::string> AI;
struct Rec { std::string f[5]; };
static std::vector<Rec> l;
static Rec rec(bool uri = true) {
  Rec r = {{"u", "x", "q", "CDATA", "v"}};
  r.f[0] = !uri || symx_pick(2) ? "u" : "";
  r.f[1][0] = symx_in("xy", 2);
  r.f[2][0] = symx_in("xy", 2);
  r.f[3][0] = symx_char();
  r.f[4][0] = symx_char();
  symx_note("  record uri '%s' local '%s' qname '%s' type '%s' value '%s'", r.f[0].c_str(), r.f[1].c_str(), r.f[2].c_str(), r.f[3].c_str(), r.f[4].c_str());
  return r;
}
static void same(const AI &a) {
  symx_check(a.getLength() == (int)l.size(), "length");
  for (unsigned i = 0; i < l.size() + 2; ++i) {
    static const std::string e;
    bool in = i < l.size();
    symx_check(a.getURI(i) == (in ? l[i].f[0] : e), "uri by index");
    symx_check(a.getLocalName(i) == (in ? l[i].f[1] : e), "local name by index");
    symx_check(a.getQName(i) == (in ? l[i].f[2] : e), "qname by index");
    symx_check(a.getType(i) == (in ? l[i].f[3] : e), "type by index");
    symx_check(a.getValue(i) == (in ? l[i].f[4] : e), "value by index");
  }
}
static void lookups(const AI &a) {
  std::string u = symx_pick(2) ? "u" : "", n = "x", q = "q";
  n[0] = symx_in("xyw", 3);
  q[0] = symx_in("xyz", 3);
  symx_note("look up uri '%s' local '%s' qname '%s'", u.c_str(), n.c_str(), q.c_str());
  int i = -1, j = -1;
  for (size_t k = l.size(); k-- > 0;) { if (l[k].f[0] == u && l[k].f[1] == n) i = (int)k; if (l[k].f[2] == q) j = (int)k; }
  symx_check(a.getIndex(u, n) == i, "index by name is the first match");
  symx_check(a.getIndex(q) == j, "index by qname is the first match");
  symx_check(a.getType(u, n) == (i < 0 ? std::string() : l[i].f[3]), "type by name");
  symx_check(a.getValue(u, n) == (i < 0 ? std::string() : l[i].f[4]), "value by name");
  symx_check(a.getType(q) == (j < 0 ? std::string() : l[j].f[3]), "type by qname");
  symx_check(a.getValue(q) == (j < 0 ? std::string() : l[j].f[4]), "value by qname");
}
void symx_main() {
  AI a;
  static const unsigned starts[] = {0, 2, 5, 1, 3, 4};
  unsigned start = starts[symx_pick(symx_param("S", 3))];
  for (unsigned i = 0; i < start; ++i) {
    Rec r = {{"u", "x", "x", "CDATA", "v"}};
    r.f[1][0] = 'w' + i; r.f[2][0] = 'z' - i; r.f[4][0] = '0' + i; if (i & 1) r.f[0] = "";
    a.addAttribute(r.f[0], r.f[1], r.f[2], r.f[3], r.f[4]);
    l.push_back(r);
  }
  unsigned n = symx_pick(symx_param("N", 2) + 1);
  for (unsigned k = 0; k < n; ++k) {
    switch (symx_pick(7)) {
      case 0: { symx_note("add"); Rec r = rec(); if (k & 1) a.addAttribute(r.f[0], r.f[1], r.f[2], r.f[3], r.f[4]); else { AI::Attr at(r.f[0], r.f[1], r.f[2], r.f[3], r.f[4]); a.addAttribute(at); } l.push_back(r); break; }
      case 1: {
        symx_note("add or replace");
        Rec r = rec();
        a.addOrReplaceAttribute(r.f[0], r.f[1], r.f[2], r.f[3], r.f[4]);
        size_t i = 0;
        while (i < l.size() && (l[i].f[0] != r.f[0] || l[i].f[1] != r.f[1])) ++i;
        if (i == l.size()) l.push_back(r); else { l[i].f[4] = r.f[4]; symx_reach("replaced"); }
        break;
      }
      case 2: { // whole record or one field, in range or not
        unsigned i = symx_pick(l.size() + 1), f = symx_pick(6);
        symx_note("set %u of %u", f, i);
        Rec r = rec(f == 0 || f == 5);
        bool threw = false;
        try {
          switch (f) {
            case 0: a.setURI(i, r.f[0]); break;
            case 1: a.setLocalName(i, r.f[1]); break;
            case 2: a.setQName(i, r.f[2]); break;
            case 3: a.setType(i, r.f[3]); break;
            case 4: a.setValue(i, r.f[4]); break;
            default: a.setAttribute(i, r.f[0], r.f[1], r.f[2], r.f[3], r.f[4]);
          }
        } catch (const std::out_of_range &) { threw = true; symx_reach("refused"); }
        symx_check(threw == (i >= l.size()), "out of range modification is refused");
        if (!threw) { if (f == 5) l[i] = r; else l[i].f[f] = r.f[f]; }
        break;
      }
      case 3: {
        unsigned i = symx_pick(l.size() + 1);
        symx_note("remove %u", i);
        bool threw = false;
        try { a.removeAttribute(i); } catch (const std::out_of_range &) { threw = true; }
        symx_check(threw == (i >= l.size()), "out of range removal is refused");
        if (!threw) l.erase(l.begin() + i);
        break;
      }
      case 4: symx_note("clear"); a.clear(); l.clear(); break;
      case 5: { symx_note("copy out and in"); AI b(a); same(b); symx_check(a == b, "copies are equal"); a.clear(); symx_check(a == AI(), "cleared"); AI c; c.addAttribute("a", "b", "c", "d", "e"); c = b; same(c); const Arabica::SAX::Attributes<std::string> &base = c; a.setAttributes(base); break; }
      default: { symx_note("assign to itself"); const Arabica::SAX::Attributes<std::string> &self = a; if (symx_pick(2)) a = self; else a.setAttributes(self); symx_reach("self"); }
    }
  }
  same(a);
  lookups(a);
}
