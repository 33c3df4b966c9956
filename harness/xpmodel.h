// A small tree kept twice: as a DOM, and as XPath 1.0's data model in document order, with the axes as section 2.2 defines them.
#include <vector>
#include <algorithm>
#include "symx.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <DOM/DocumentFragment.hpp>
#include <XPath/XPath.hpp>
using namespace Arabica;
typedef std::string S;
typedef DOM::Node<S> Node;
enum Kind { ROOT, ELEM, ATTR, TEXT, COMMENT, PI };
struct M { int parent; Kind kind; S local, uri, value; Node node; };
static std::vector<M> T;
static DOM::DOMImplementation<S> impl() { return SimpleDOM::DOMImplementation<S>::getDOMImplementation(); }
static DOM::Document<S> doc;
struct Ctx : XPath::NamespaceContext<S, Arabica::default_string_adaptor<S> > { S namespaceURI(const S &p) const { return p == "p" ? "u" : "v"; } };
static Ctx nsContext;

static int add(int parent, Kind kind, const S &local, const S &uri, const S &value, Node n) {
  M m; m.parent = parent; m.kind = kind; m.local = local; m.uri = uri; m.value = value; m.node = n;
  T.push_back(m); return T.size() - 1;
}
static int symbolicNames = 1000; // after so many, names alternate
static S name() { int n = symbolicNames--; return n > 0 ? S(1, symx_in("ab", 2)) : S(n & 1 ? "a" : "b"); }
static int element(int parent, const S &local, bool ns, bool symbolicAttr = false) {
  DOM::Element<S> e = ns ? doc.createElementNS("u", "p:" + local) : doc.createElement(local);
  if (parent >= 0) T[parent].node.appendChild(e);
  return add(parent, ELEM, local, ns ? "u" : "", "", e);
}
static int attribute(int parent, const S &local, bool ns, const S &value) {
  DOM::Element<S> e = DOM::Element<S>(T[parent].node);
  DOM::Attr<S> a = ns ? doc.createAttributeNS("u", "p:" + local) : doc.createAttribute(local);
  a.setValue(value);
  if (ns) e.setAttributeNodeNS(a); else e.setAttributeNode(a);
  return add(parent, ATTR, local, ns ? "u" : "", value, a);
}
// a text node made of several DOM nodes
static void more(int t, const S &value, bool cdata) {
  Node p = T[T[t].parent].node;
  if (cdata) p.appendChild(doc.createCDATASection(value)); else p.appendChild(doc.createTextNode(value));
  T[t].value += value;
}
static int node(int parent, Kind kind, const S &local, const S &value) {
  if (kind == TEXT) {
    int last = -1;
    for (unsigned i = 0; i < T.size(); ++i) if (T[i].parent == parent && T[i].kind != ATTR) last = i;
    if (last >= 0 && T[last].kind == TEXT) { more(last, value, false); return last; }
  }
  Node n;
  if (kind == TEXT) n = doc.createTextNode(value);
  if (kind == COMMENT) n = doc.createComment(value);
  if (kind == PI) n = doc.createProcessingInstruction(local, value);
  T[parent].node.appendChild(n);
  return add(parent, kind, local, "", value, n);
}
static bool under(int n, int a) { while (n > a) n = T[n].parent; return n == a; } // n is a or a descendant (or attribute) of it
static S stringValue(int n) {
  if (T[n].kind > ELEM) return T[n].value;
  S s;
  for (unsigned i = n + 1; i < T.size() && under(i, n); ++i) if (T[i].kind == TEXT) s += T[i].value;
  return s;
}
enum { ANC, ANCSELF, ATT, CHILD, DESC, DESCSELF, FOLL, FOLLSIB, PARENT, PREC, PRECSIB, SELF, AXES };
static const char *const axisName[] = {"ancestor", "ancestor-or-self", "attribute", "child", "descendant", "descendant-or-self", "following", "following-sibling", "parent", "preceding", "preceding-sibling", "self"};
static bool backwards(int ax) { return ax == ANC || ax == ANCSELF || ax == PREC || ax == PRECSIB || ax == PARENT; }
static bool onAxis(int c, int n, int ax) {
  bool att = T[n].kind == ATTR;
  switch (ax) {
    case SELF: return n == c;
    case PARENT: return T[c].parent == n;
    case ANC: return n != c && under(c, n);
    case ANCSELF: return under(c, n);
    case ATT: return att && T[n].parent == c;
    case CHILD: return !att && T[n].parent == c;
    case DESC: return !att && n != c && under(n, c);
    case DESCSELF: return n == c || (!att && under(n, c));
    case FOLL: return !att && n > c && !under(n, c);
    case PREC: return !att && n < c && !under(c, n);
    case FOLLSIB: return !att && T[c].kind != ATTR && T[n].parent == T[c].parent && T[c].parent >= 0 && n > c;
    case PRECSIB: return !att && T[c].kind != ATTR && T[n].parent == T[c].parent && T[c].parent >= 0 && n < c;
  }
  return false;
}
enum { STAR, ANY, TEXTS, COMMENTS, PIS, PIT, NAME, PNAME, PSTAR, TESTS };
static const char *const testName[] = {"*", "node()", "text()", "comment()", "processing-instruction()", "processing-instruction('a')", "a", "p:a", "p:*"};
static bool passes(int n, int ax, int test) {
  bool principal = T[n].kind == (ax == ATT ? ATTR : ELEM);
  switch (test) {
    case STAR: return principal;
    case ANY: return true;
    case TEXTS: return T[n].kind == TEXT;
    case COMMENTS: return T[n].kind == COMMENT;
    case PIS: return T[n].kind == PI;
    case PIT: return T[n].kind == PI && T[n].local == "a";
    case NAME: return principal && T[n].local == "a" && T[n].uri == "";
    case PNAME: return principal && T[n].local == "a" && T[n].uri == "u";
    case PSTAR: return principal && T[n].uri == "u";
  }
  return false;
}
typedef std::vector<int> Set;
static Set select(int c, int ax, int test) { // in the order of the axis
  Set r;
  for (unsigned i = 0; i < T.size(); ++i) if (onAxis(c, i, ax) && passes(i, ax, test)) r.push_back(i);
  if (backwards(ax)) std::reverse(r.begin(), r.end());
  return r;
}
static void inOrder(Set &s) { std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); }
// whether a node-set is exactly the set s (in document order)
static bool same(XPath::NodeSet<S> got, const Set &s) {
  if (got.size() != s.size()) return false;
  bool back = got.reverse(), fore = got.forward();
  for (unsigned i = 0; i < s.size() && (back || fore); ++i) if (got[back ? s.size() - 1 - i : i] != T[s[i]].node) return false;
  got.to_document_order();
  if (got.size() != s.size()) return false;
  for (unsigned i = 0; i < s.size(); ++i) if (got[i] != T[s[i]].node) return false;
  return true;
}
static void note(const XPath::NodeSet<S> &got, const Set &want) {
  S g, w;
  for (unsigned i = 0; i < got.size(); ++i) { unsigned k = 0; while (k < T.size() && got[i] != T[k].node) ++k; g += " " + std::to_string(k); }
  for (unsigned i = 0; i < want.size(); ++i) w += " " + std::to_string(want[i]);
  S t;
  for (unsigned i = 0; i < T.size(); ++i) t += " " + std::to_string(i) + "<" + std::to_string(T[i].parent) + ":" + std::to_string(T[i].kind) + T[i].local;
  symx_note("tree%s; got%s (reverse %d), want%s", t.c_str(), g.c_str(), got.reverse(), w.c_str());
}
