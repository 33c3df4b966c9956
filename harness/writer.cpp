// C10: what SAX::Writer writes, read back by the small XML reader below, is what it was told.
#include <iostream>
#include <sstream>
#include <vector>
#include "symx.h"
#include <SAX/filter/Writer.hpp>
typedef std::string S;
typedef Arabica::SAX::Writer<S> Writer;
typedef Arabica::SAX::AttributesImpl<S> Atts;
typedef std::pair<S, S> Pair;
struct Ev { S kind, a, b, c, d, e; std::vector<Pair> atts; };
typedef std::vector<Ev> Evs;

static bool indented;
static void text(Evs &l, const S &t) {
  if (t.empty()) return;
  if (!l.empty() && l.back().kind == "text") l.back().a += t;
  else { Ev e; e.kind = "text"; e.a = t; l.push_back(e); }
}

// ---- the reader
struct Bad {};
struct Reader {
  const S s;
  size_t p;
  Evs out;
  std::vector<S> open;
  Reader(const S &t) : s(t), p(0) {}
  char cur() { if (p >= s.size()) throw Bad(); return s[p]; }
  bool at(const char *w) { size_t i = 0; for (; w[i]; ++i) if (p + i >= s.size() || s[p + i] != w[i]) return false; return true; }
  bool eat(const char *w) { if (!at(w)) return false; while (*w++) ++p; return true; }
  void need(const char *w) { if (!eat(w)) throw Bad(); }
  bool ws() { bool any = false; while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) { ++p; any = true; } return any; }
  S name() { S n; for (;;) { char c = cur(); if (c == ' ' || c == '>' || c == '/' || c == '=' || c == '\n' || c == '<' || c == '?' || c == ';' || c == '"' || c == '[') break; n += c; ++p; } if (n.empty()) throw Bad(); return n; }
  S until(const char *w) { S t; while (!at(w)) { char c = cur(); t += c == '\r' ? '\n' : c; ++p; } eat(w); return t; }
  bool ref(S &t, bool general, S &entity) { // at '&'
    ++p;
    if (eat("#")) {
      bool hex = eat("x");
      unsigned v = 0, n = 0;
      for (; cur() != ';'; ++p, ++n) {
        char c = cur();
        unsigned d = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
        if (d == 99) throw Bad();
        v = v * (hex ? 16 : 10) + d;
      }
      ++p;
      if (!n || v > 255) throw Bad();
      t += (char)v;
      return true;
    }
    if (!general) { t += '&'; return true; }
    S n = name();
    need(";");
    if (n == "lt") t += '<'; else if (n == "gt") t += '>'; else if (n == "amp") t += '&'; else if (n == "quot") t += '"'; else if (n == "apos") t += '\'';
    else { entity = n; return false; }
    return true;
  }
  S value() { // attribute value literal
    char q = cur();
    if (q != '"' && q != '\'') throw Bad();
    S t, e;
    for (++p; cur() != q;) {
      char c = cur();
      if (c == '<') throw Bad();
      if (c == '&') { if (!ref(t, true, e)) throw Bad(); continue; }
      t += c == '\n' || c == '\t' || c == '\r' ? ' ' : c;
      ++p;
    }
    ++p;
    return t;
  }
  S literal() { char q = cur(); if (q != '"' && q != '\'') throw Bad(); S t; for (++p; cur() != q; ++p) t += s[p]; ++p; return t; }
  S entityValue() {
    char q = cur();
    if (q != '"' && q != '\'') throw Bad();
    S t, e;
    for (++p; cur() != q;) {
      char c = cur();
      if (c == '%') throw Bad();
      if (c == '&') { ref(t, false, e); continue; }
      t += c == '\r' ? '\n' : c;
      ++p;
    }
    ++p;
    return t;
  }
  void ids(S &pub, S &sys) { if (eat("PUBLIC ")) { pub = literal(); if (eat(" ")) { if (cur() == '"' || cur() == '\'') sys = literal(); else --p; } } else if (eat("SYSTEM ")) sys = literal(); }
  void doctype() {
    Ev e;
    e.kind = "dtd";
    e.a = name();
    ws();
    ids(e.b, e.c);
    out.push_back(e);
    ws();
    need("[");
    for (ws(); !eat("]"); ws()) {
      Ev d;
      if (eat("<!ENTITY ")) {
        if (eat("% ")) d.a = "%";
        d.a += name();
        need(" ");
        if (cur() == '"') { d.kind = "entity"; d.b = entityValue(); }
        else { d.kind = "external"; ids(d.b, d.c); if (eat(" NDATA ")) { d.kind = "unparsed"; d.d = name(); } }
      } else if (eat("<!ELEMENT ")) { d.kind = "element"; d.a = name(); need(" "); while (cur() != '>') d.b += s[p++]; }
      else if (eat("<!ATTLIST ")) { d.kind = "attlist"; d.a = name(); need(" "); d.b = name(); need(" "); d.c = name(); need(" "); if (cur() == '#') { d.d = name(); ws(); } if (cur() != '>') d.e = value(); }
      else if (eat("<!NOTATION ")) { d.kind = "notation"; d.a = name(); need(" "); ids(d.b, d.c); }
      else if (eat("<!--")) { d.kind = "comment"; d.a = until("--"); }
      else if (eat("<?")) { d.kind = "pi"; d.a = name(); ws(); d.b = until("?>"); --p; }
      else throw Bad();
      need(">");
      out.push_back(d);
    }
    ws();
    need(">");
    e.kind = "enddtd";
    out.push_back(e);
  }
  void document() {
    need("<?xml version=\"1.0\"");
    eat(" encoding=\"utf-8\"");
    need("?>");
    while (p < s.size()) {
      Ev e;
      if (eat("<?")) { e.kind = "pi"; e.a = name(); if (!at("?>") && !ws()) throw Bad(); e.b = until("?>"); out.push_back(e); }
      else if (eat("<!--")) { e.kind = "comment"; e.a = until("--"); need(">"); out.push_back(e); }
      else if (eat("<![CDATA[")) { if (open.empty()) throw Bad(); text(out, until("]]>")); }
      else if (eat("<!DOCTYPE ")) doctype();
      else if (eat("</")) { if (open.empty() || name() != open.back()) throw Bad(); ws(); need(">"); e.kind = "end"; e.a = open.back(); open.pop_back(); out.push_back(e); }
      else if (eat("<")) {
        e.kind = "start";
        e.a = name();
        while (ws() && cur() != '/' && cur() != '>') { S n = name(); need("="); for (size_t i = 0; i < e.atts.size(); ++i) if (e.atts[i].first == n) throw Bad(); S v = value(); e.atts.push_back(Pair(n, v)); }
        out.push_back(e);
        if (eat("/>")) { e.kind = "end"; e.atts.clear(); out.push_back(e); }
        else { need(">"); open.push_back(e.a); }
      } else if (open.empty()) { if (!ws()) throw Bad(); }
      else {
        S t, ent;
        bool hit = false;
        while (p < s.size() && cur() != '<' && !hit) {
          if (at("]]>")) throw Bad();
          if (cur() == '&') { hit = !ref(t, true, ent); continue; }
          t += cur() == '\r' ? '\n' : cur();
          ++p;
        }
        text(out, t);
        if (hit) { e.kind = "skipped"; e.a = ent; out.push_back(e); }
      }
    }
    if (!open.empty()) throw Bad();
  }
};

static S squeeze(const S &t) { S r; for (size_t i = 0; i < t.size(); ++i) if (t[i] != ' ' && t[i] != '\n') r += t[i]; return r; }
static Evs plain(const Evs &l) { // what indentation may not change
  Evs r;
  for (size_t i = 0; i < l.size(); ++i) if (l[i].kind != "text") r.push_back(l[i]); else text(r, squeeze(l[i].a));
  return r;
}

// ---- the events
static Evs want;
static Ev ev(const char *k, const S &a = "", const S &b = "", const S &c = "", const S &d = "", const S &e = "") { Ev v; v.kind = k; v.a = a; v.b = b; v.c = c; v.d = d; v.e = e; return v; }
static S hot(unsigned n) { // XML characters
  n = symx_pick(n + 1);
  S s;
  for (unsigned i = 0; i < n; ++i) { char c = symx_char(); symx_assume((unsigned char)c >= 0x20 || c == '\t' || c == '\n' || c == '\r'); s += c; }
  return s;
}
static bool has(const S &s, const char *w) { return s.find(w) != S::npos; }
static S legal(S s, const char *bad) { for (size_t i = 0; i < s.size(); ++i) symx_assume(s[i] != '\r'); symx_assume(!has(s, bad)); return s; }

static void prolog(Writer &w, bool h) {
  S sys = "s.dtd", v = "v";
  if (h) switch (symx_pick(3)) { case 0: sys[0] = symx_char(); symx_assume((unsigned char)sys[0] > 32); break; default: v = hot(2); }
  S pub = !h && symx_pick(2) ? "-//p" : "";
  if (!h && pub.empty() && symx_pick(2)) sys = "";
  symx_note("doctype system '%s' value '%s'", sys.c_str(), v.c_str());
  w.startDTD("a", pub, sys);
  want.push_back(ev("dtd", "a", pub, sys));
  unsigned n = symx_pick(8);
  switch (n) {
    case 0: w.internalEntityDecl("e", v); want.push_back(ev("entity", "e", v)); break;
    case 1: w.internalEntityDecl("%e", v); want.push_back(ev("entity", "%e", v)); break;
    case 2: w.externalEntityDecl("x", pub, "i.xml"); want.push_back(ev("external", "x", pub, "i.xml")); break;
    case 3: w.attributeDecl("a", "b", "CDATA", "", v); want.push_back(ev("attlist", "a", "b", "CDATA", "", v)); if (v.empty()) want.pop_back(), symx_assume(false); break;
    case 4: w.attributeDecl("a", "b", "ID", "#REQUIRED", ""); w.attributeDecl("a", "c", "CDATA", "#FIXED", v.empty() ? "w" : v); want.push_back(ev("attlist", "a", "b", "ID", "#REQUIRED", "")); want.push_back(ev("attlist", "a", "c", "CDATA", "#FIXED", v.empty() ? "w" : v)); break;
    case 5: w.notationDecl("n", pub, pub.empty() ? "n.exe" : ""); w.unparsedEntityDecl("u", pub, "u.gif", "n"); want.push_back(ev("notation", "n", pub, pub.empty() ? "n.exe" : "")); want.push_back(ev("unparsed", "u", pub, "u.gif", "n")); break;
    case 6: { bool pe = symx_pick(2); if (pe) w.startEntity("%p"); w.elementDecl("a", "(b|c)*"); if (pe) w.endEntity("%p"); } w.comment("d"); w.processingInstruction("t", "d"); want.push_back(ev("element", "a", "(b|c)*")); want.push_back(ev("comment", "d")); want.push_back(ev("pi", "t", "d")); break;
    default: // the external subset is not written
      w.startEntity("[dtd]"); if (symx_pick(2)) { w.startEntity("%p"); w.elementDecl("y", "ANY"); w.endEntity("%p"); } w.elementDecl("z", "ANY"); w.internalEntityDecl("z", "z"); w.attributeDecl("z", "z", "CDATA", "", "z"); w.comment("z"); w.processingInstruction("z", "z"); w.notationDecl("z", "", "z"); w.unparsedEntityDecl("z", "", "z", "z"); w.externalEntityDecl("z", "", "z"); w.endEntity("[dtd]");
      w.elementDecl("b", "EMPTY");
      want.push_back(ev("element", "b", "EMPTY"));
  }
  w.endDTD();
  want.push_back(ev("enddtd", "a", pub, sys));
  symx_reach("doctype");
}
static void start(Writer &w, const S &name, bool h, unsigned ns) { // ns: 0 none, 1 mapping, 2 mapping also reported as an attribute, 3 default mapping
  Ev e = ev("start", name);
  Atts a;
  if (ns) {
    S uri = "urn:u", pre = ns == 3 ? "" : "p", q = ns == 3 ? "xmlns" : "xmlns:p";
    if (h) { uri = "u"; uri[0] = symx_char(); symx_assume((unsigned char)uri[0] > 32); h = false; }
    w.startPrefixMapping(pre, uri);
    e.atts.push_back(Pair(q, uri));
    if (ns == 2) a.addAttribute("", "", q, "CDATA", uri);
  }
  if (h) {
    S v = hot(2);
    symx_note("attribute '%s'", v.c_str());
    a.addAttribute("", "x", "x", "CDATA", v);
    e.atts.push_back(Pair("x", v));
    a.addAttribute("u", "y", "p:y", "CDATA", "2");
    e.atts.push_back(Pair("p:y", "2"));
  }
  size_t colon = name.find(':');
  w.startElement(colon == S::npos ? "" : "u", colon == S::npos ? name : name.substr(colon + 1), h || colon != S::npos || symx_pick(2) ? name : "", a);
  want.push_back(e);
}
void symx_main() {
  std::ostringstream os;
  indented = symx_pick(2);
  Writer w(os, indented ? 2 : 0);
  unsigned n = symx_pick(symx_param("N", 3) + 1), where = indented ? n + 1 : symx_pick(n + 2);
  if (where == n + 1) w.setEncoding("utf-8");
  w.startDocument();
  bool dtd = where == n + 1 && n == 1 && symx_pick(2);
  if (dtd) { prolog(w, symx_pick(2)); n = 0; where = 1; }
  std::vector<S> open;
  start(w, "a", where == 0, where == n + 1 && !dtd && n < 2 ? symx_pick(4) : 0);
  open.push_back("a");
  for (unsigned i = 1; i <= n; ++i) {
    bool h = i == where;
    switch (symx_pick(open.size() > 1 ? 8 : 7)) {
      case 0: { S s = h ? hot(2) : S("t ]]"); symx_note("text '%s'", s.c_str()); w.characters(s); text(want, s); break; }
      case 1: { S name = h || i & 1 ? "b" : "p:c"; start(w, name, h, h ? symx_pick(4) : 0); open.push_back(name); break; }
      case 2: { S s = h ? legal(hot(3), "--") : S("c"); if (h && !s.empty()) symx_assume(s[s.size() - 1] != '-'); symx_note("comment '%s'", s.c_str()); w.comment(s); want.push_back(ev("comment", s)); break; }
      case 3: { S s = h ? legal(hot(2), "?>") : S("d"); if (!s.empty()) symx_assume(s[0] != ' ' && s[0] != '\t' && s[0] != '\n'); symx_note("pi '%s'", s.c_str()); w.processingInstruction("t", s); want.push_back(ev("pi", "t", s)); break; }
      case 4: { S s = h ? legal(hot(3), "]]>") : S("<c&]"); symx_note("cdata '%s'", s.c_str()); w.startCDATA(); w.characters(s); w.endCDATA(); text(want, s); break; }
      case 5: symx_note("skipped entity"); w.skippedEntity("ent"); want.push_back(ev("skipped", "ent")); break;
      case 6: { S s = h ? S(symx_pick(2), 'x') : S(); s += i & 1 ? ' ' : '\n'; if (h) for (size_t j = 0; j < s.size(); ++j) s[j] = symx_in(" \t\n", 3); symx_note("ignorable whitespace '%s'", s.c_str()); w.ignorableWhitespace(s); text(want, s); break; }
      default: symx_note("end"); w.endElement("", open.back(), open.back()); want.push_back(ev("end", open.back())); open.pop_back();
    }
  }
  while (!open.empty()) { w.endElement("", open.back(), open.back()); want.push_back(ev("end", open.back())); open.pop_back(); }
  w.endDocument();
  S doc = os.str();
  symx_note("written %s", doc.c_str());
  symx_observe(doc);
  Reader r(doc);
  try { r.document(); } catch (const Bad &) { symx_fail("the output is well formed"); return; }
  Evs got = r.out;
  if (indented) { got = plain(got); want = plain(want); }
  symx_check(got.size() == want.size(), "as many events are read back as were written");
  for (size_t i = 0; i < got.size(); ++i) {
    symx_check(got[i].kind == want[i].kind, "the same kinds of events are read back");
    symx_check(got[i].a == want[i].a && got[i].b == want[i].b && got[i].c == want[i].c && got[i].d == want[i].d && got[i].e == want[i].e, "the same names and contents are read back");
    symx_check(got[i].atts.size() == want[i].atts.size(), "as many attributes are read back as were written");
    for (size_t j = 0; j < got[i].atts.size(); ++j) symx_check(got[i].atts[j] == want[i].atts[j], "the same attributes are read back");
  }
  symx_reach(indented ? "indented" : "exact");
}
