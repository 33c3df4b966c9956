// C24: a DOM streamed with operator<< and read back by the small namespace-aware reader below is the DOM it was.
#include <iostream>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include "symx.h"
#include "xmlreader.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <DOM/DocumentFragment.hpp>
#include <DOM/io/Stream.hpp>
using namespace Arabica;
typedef DOM::Node<S> Node;
static void check(const Node &n, const Evs &want) {
  std::ostringstream o;
  o << n;
  S s = o.str();
  symx_note("%s", s.c_str());
  Reader r(s);
  bool good = true;
  try { r.read(); } catch (const Bad &) { good = false; }
  symx_check(good, "what is written is well-formed");
  if (!good) return;
  symx_check(r.out.size() == want.size(), "as much is read back as was written");
  if (r.out.size() != want.size()) return;
  for (size_t i = 0; i < want.size(); ++i) {
    const Ev &g = r.out[i], &w = want[i];
    symx_check(g.kind == w.kind, "the same kinds of nodes are read back");
    symx_check(g.uri == w.uri && g.name == w.name, "the same names are read back");
    symx_check(g.value == w.value, "the same contents are read back");
    symx_check(g.atts == w.atts, "the same attributes are read back");
  }
  std::ostringstream again;
  again << n;
  symx_check(again.str() == s, "writing again writes the same");
}
// ---- the nodes
static DOM::DOMImplementation<S> impl() { return SimpleDOM::DOMImplementation<S>::getDOMImplementation(); }
static DOM::Document<S> doc;
static S uri() { return S(1, symx_in("uv", 2)); }
static S prefix() { return S(1, symx_in("pq", 2)); }
static void xmlns(DOM::Element<S> e, const S &pre, const S &u) { e.setAttributeNS("http://www.w3.org/2000/xmlns/", pre.empty() ? S("xmlns") : "xmlns:" + pre, u); }
static DOM::Element<S> element(Evs &want, int kinds, int atts) {
  int k = symx_pick(kinds); // in no namespace, the default, under p or q
  DOM::Element<S> e;
  if (k == 0) { e = doc.createElement("e"); put(want, '<', "e", ""); }
  else {
    S u = uri(), pre = k == 1 ? S() : prefix();
    e = doc.createElementNS(u, pre.empty() ? S("e") : pre + ":e");
    put(want, '<', "e", "", u);
  }
  Ev &w = want.back();
  for (int i = 0; i < atts; ++i) {
    S v(1, (char)('1' + i)), local(1, (char)('a' + i));
    int a = symx_pick(8);
    if (a == 0) continue;
    if (a == 1) { e.setAttribute(local, v); w.atts.insert(Att(std::make_pair(S(), local), v)); continue; }
    if (a == 2) { e.setAttributeNS("", local, v); w.atts.insert(Att(std::make_pair(S(), local), v)); continue; }
    if (a == 3) { xmlns(e, prefix(), uri()); continue; } // only what is used gets declared
    if (a == 4) { xmlns(e, "", uri()); continue; }
    if (a == 5) { e.setAttributeNS("http://www.w3.org/XML/1998/namespace", "xml:" + local, v); w.atts.insert(Att(std::make_pair(S("http://www.w3.org/XML/1998/namespace"), local), v)); continue; }
    S u = uri(), pre = a == 6 ? prefix() : S("a0");
    e.setAttributeNS(u, pre + ":" + local, v);
    w.atts.insert(Att(std::make_pair(u, local), v));
  }
  return e;
}
static void names() {
  Evs want;
  int from = symx_pick(3), chain = symx_param("DEEP", 2), more = symx_param("MORE", 0);
  // a chain of elements; then, in the last, two elements, one of them with an element in no namespace
  DOM::Element<S> top, at;
  for (int i = 0; i < chain; ++i) {
    int kinds = 3, atts = i == 0 && from == 0 ? 2 : i == 1 && from == 0 ? more : 1;
    if (i > 1) kinds = 2, atts = 0;
    DOM::Element<S> e = element(want, kinds, atts);
    if (i == 0) top = e; else at.appendChild(e);
    at = e;
  }
  at.appendChild(doc.createElementNS("u", "e")); put(want, '<', "e", "", "u"); put(want, '>', "", "");
  DOM::Element<S> p = doc.createElementNS("v", "p:e"); at.appendChild(p); put(want, '<', "e", "", "v");
  p.appendChild(doc.createElement("n")); put(want, '<', "n", ""); put(want, '>', "", ""); put(want, '>', "", "");
  for (int i = 0; i < chain; ++i) put(want, '>', "", "");
  if (from == 0) { doc.appendChild(top); check(doc, want); }
  if (from == 2) check(top, want); // never in a document
  if (from == 1) { // an element with its surroundings left out
    doc.appendChild(top);
    Evs inner(want.begin() + 1, want.end() - 1);
    check(top.getFirstChild(), inner);
  }
  symx_reach("names");
}
static S xml(S s) { for (size_t i = 0; i < s.size(); ++i) symx_assume((unsigned char)s[i] >= 0x20 || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'); return s; }
static S literal(const S &s) { for (size_t i = 0; i < s.size(); ++i) symx_assume(s[i] != '\r'); return s; } // where nothing can be escaped
static void contents() {
  Evs want;
  DOM::Element<S> e = doc.createElement("e");
  put(want, '<', "e", "");
  int kind = symx_pick(8), n = symx_pick(symx_param("N", 4) + 1);
  S s = xml(symx_string(n));
  switch (kind) {
    case 0: e.appendChild(doc.createTextNode(s)); put(want, 't', "", s); break;
    case 1: e.setAttribute("a", s); want[0].atts.insert(Att(std::make_pair(S(), S("a")), s)); break;
    case 2: literal(s); e.appendChild(doc.createCDATASection(s)); put(want, 't', "", s); break;
    case 3: literal(s); for (size_t i = 0; i + 1 < s.size(); ++i) symx_assume(!(s[i] == '-' && s[i + 1] == '-')); if (n) symx_assume(s[n - 1] != '-');
      e.appendChild(doc.createComment(s)); put(want, 'c', "", s); break;
    case 4: literal(s); for (size_t i = 0; i < s.size(); ++i) symx_assume((unsigned char)s[i] < 0x80); // others must be UTF-8
      for (size_t i = 0; i + 1 < s.size(); ++i) symx_assume(!(s[i] == '?' && s[i + 1] == '>')); if (n) symx_assume(s[0] != ' ' && s[0] != '\t' && s[0] != '\n');
      e.appendChild(doc.createProcessingInstruction("pi", s)); put(want, 'p', "pi", s); break;
    case 5: symx_assume(n > 0); e = doc.createElementNS(s, "p:e"); want[0].uri = s; break;
    case 6: symx_assume(n > 0); e.setAttributeNS(s, "a", "1"); want[0].atts.insert(Att(std::make_pair(s, S("a")), S("1"))); break;
    case 7: { // text broken into text and CDATA
      if (n < 2) return;
      literal(s); int k = 1 + symx_pick(n - 1); bool first = symx_pick(2);
      Node a = first ? (Node)doc.createCDATASection(s.substr(0, k)) : (Node)doc.createTextNode(s.substr(0, k)), b = first ? (Node)doc.createTextNode(s.substr(k)) : (Node)doc.createCDATASection(s.substr(k));
      e.appendChild(a); e.appendChild(b); put(want, 't', "", s); break;
    }
  }
  put(want, '>', "", "");
  check(e, want);
  symx_reach("contents");
}
// CDATA sections and text over the characters which end them
static void ends() {
  Evs want;
  DOM::Element<S> e = doc.createElement("e");
  put(want, '<', "e", "");
  int n = symx_param("ENDS", 7); S s(n, 'x');
  for (int i = 0; i < n; ++i) s[i] = symx_in("]>", 2);
  if (symx_pick(2)) e.appendChild(doc.createCDATASection(s)); else e.appendChild(doc.createTextNode(s));
  put(want, 't', "", s); put(want, '>', "", "");
  check(e, want);
  symx_reach("ends");
}
static void node(Node parent, Evs &want, int depth, bool top) {
  int k = symx_pick(top ? 3 : 7); S c(1, symx_in("ab", 2));
  switch (k) {
    case 0: parent.appendChild(doc.createComment(c)); put(want, 'c', "", c); break;
    case 1: parent.appendChild(doc.createProcessingInstruction("p" + c, top ? S() : c)); put(want, 'p', "p" + c, top ? S() : c); break;
    case 2: {
      DOM::Element<S> e = doc.createElement("e" + c); put(want, '<', "e" + c, "");
      parent.appendChild(e);
      if (depth) for (int n = symx_pick(3); n > 0; --n) node(e, want, depth - 1, false);
      put(want, '>', "", ""); break;
    }
    case 3: parent.appendChild(doc.createTextNode(c)); put(want, 't', "", c); break;
    case 4: parent.appendChild(doc.createCDATASection(c)); put(want, 't', "", c); break;
    case 5: parent.appendChild(doc.createEntityReference("r" + c)); put(want, 'r', "r" + c, ""); break;
    case 6: parent.appendChild(doc.createTextNode("")); break;
  }
}
static void shapes() {
  Evs want;
  int where = symx_pick(4);
  if (where == 0) { // a document, possibly with a document type, and something before and after the element
    if (symx_pick(2)) doc = impl().createDocument("", "e", impl().createDocumentType("e", "", "")), doc.removeChild(doc.getDocumentElement());
    bool had = false;
    for (int i = 0; i < 3; ++i) {
      int k = symx_pick(2); S c(1, symx_in("ab", 2));
      if (i == 1) { node(doc, want, 1, true); for (size_t j = 0; j < want.size(); ++j) had |= want[j].kind == '<'; }
      else if (k) { doc.appendChild(doc.createComment(c)); put(want, 'c', "", c); }
    }
    check(doc, want);
  } else if (where == 1) {
    DOM::DocumentFragment<S> f = doc.createDocumentFragment();
    for (int n = symx_pick(3); n > 0; --n) node(f, want, 1, false);
    check(f, want);
  } else { // any one node
    DOM::DocumentFragment<S> f = doc.createDocumentFragment();
    node(f, want, symx_param("TALL", 1), false);
    if (f.getFirstChild() == 0) return;
    Node n = f.getFirstChild();
    if (where == 3) f.removeChild(n);
    check(n, want);
  }
  symx_reach("shapes");
}
extern "C" void symx_main(void) {
  { doc = impl().createDocument("", "", 0); Evs w; DOM::Element<S> e = doc.createElementNS("u", "e"); e.appendChild(doc.createCDATASection("]]>")); std::ostringstream o; o << e; doc.appendChild(e); o << doc; doc = DOM::Document<S>(); }
  long live = symx_live();
  doc = impl().createDocument("", "", 0);
  int part = symx_pick(4), only = symx_param("ONLY", -1);
  if (only >= 0) symx_assume(part == only);
  switch (part) { case 0: names(); break; case 1: contents(); break; case 2: ends(); break; default: shapes(); }
  doc = DOM::Document<S>();
  symx_check(symx_live() == live, "nothing is left behind");
}
