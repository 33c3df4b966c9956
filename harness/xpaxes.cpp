// C20: every axis from every node, and document order, against XPath 1.0's data model.
#include <iostream>
#include "xpmodel.h"
static XPath::XPathExpression<S> *E[AXES][TESTS];
static void child(int p, int depth) {
  switch (symx_pick(depth ? 9 : 5)) {
    case 0: break;
    case 1: node(p, TEXT, "", "t"); break;
    case 2: more(node(p, TEXT, "", "t"), "x", symx_pick(2)); break;
    case 3: { bool pi = symx_pick(2); node(p, pi ? PI : COMMENT, pi ? name() : S(), "c"); } break;
    case 4: element(p, name(), symx_pick(2)); break;
    case 5: { int e = element(p, name(), true); attribute(e, name(), false, "1"); node(e, TEXT, "", "t"); } break;
    case 6: { int e = element(p, name(), false); more(node(e, TEXT, "", "t"), "y", false); child(e, 0); node(e, PI, "b", ""); } break;
    case 7: { int e = element(p, name(), false); child(e, 0); more(node(e, TEXT, "", "t"), "y", true); } break;
    case 8: { int e = element(p, name(), true); element(element(e, "b", false), name(), false); } break;
  }
}
static void tree(int where, bool small = false) {
  T.clear(); symbolicNames = symx_param("NAMES", 2);
  int p = -1;
  unsigned frame = small ? 3 : symx_pick(where ? 2 : 5), prolog = 0;
  if (where == 0) {
    prolog = frame;
    DOM::DocumentType<S> type = impl().createDocumentType("r", "", "");
    doc = impl().createDocument("", "", prolog == 3 ? type : DOM::DocumentType<S>());
    p = add(-1, ROOT, "", "", "", doc);
    if (prolog == 1) { node(p, COMMENT, "", "k"); doc.appendChild(type); }
    if (prolog == 2) node(p, PI, "a", "");
  } else doc = impl().createDocument("", "", 0);
  if (where == 1) p = add(-1, ROOT, "", "", "", doc.createDocumentFragment());
  int r = element(p, name(), false);
  unsigned atts = small ? 2 : frame % 3;
  if (atts) { attribute(r, name(), false, "1"); DOM::Element<S>(T[r].node).setAttributeNS("http://www.w3.org/2000/xmlns/", "xmlns:p", "u"); }
  if (atts == 2) attribute(r, name(), true, "2");
  unsigned k = small ? 1 : symx_param("KIDS", 2);
  if (small) { child(element(r, "b", false), 0); child(r, 0); return; }
  child(r, 1);
  for (int i = 1; i < (int)k; ++i) child(r, i < symx_param("DEEP", 1) ? 1 : 0);
  if (where == 1) node(p, TEXT, "", "f");
  if (where == 0 && (frame & 1)) node(p, COMMENT, "", "e");
}
// an axis and a test from every node
static void axes() {
  tree(symx_pick(3));
  int ax = symx_pick(AXES);
  for (unsigned c = 0; c < T.size(); ++c)
    for (int t = 0; t < TESTS; ++t) {
      if (T[c].parent < 0 && T[c].kind == ROOT && c && t) continue;
      Set want = select(c, ax, t);
      inOrder(want);
      XPath::NodeSet<S> got = E[ax][t]->evaluate(T[c].node).asNodeSet();
      bool ok = same(got, want);
      if (!ok) { note(got, want); symx_note("%s::%s from %u", axisName[ax], testName[t], c); }
      symx_check(ok, "an axis and a test select exactly the nodes XPath says");
    }
  symx_reach("axes");
}
// nodes taken one from each of several trees, in any order, come out in one order
static void order() {
  tree(1 + symx_pick(2), true);
  DOM::Element<S> other[2] = {doc.createElement("o"), doc.createElement("q")};
  doc.appendChild(other[0]); other[1].appendChild(doc.createElement("z"));
  std::vector<Node> all;
  unsigned a = symx_pick(T.size()), b = symx_pick(T.size());
  all.push_back(T[a].node); all.push_back(other[0]); all.push_back(other[1].getFirstChild()); all.push_back(T[b].node); all.push_back(other[1]);
  XPath::NodeSet<S> s, t;
  unsigned turn = 1 + 2 * symx_pick(2), flip = symx_pick(2);
  for (unsigned i = 0; i < 5; ++i) { s.push_back(all[i]); t.push_back(all[flip ? (turn + 5 - i) % 5 : (turn + i) % 5]); }
  s.to_document_order(); t.to_document_order();
  symx_check(s.size() == (a == b ? 4u : 5u) && t.size() == s.size(), "a node-set holds each node once");
  bool agree = true;
  int posA = -1, posB = -1, posO = -1, posQ = -1, posZ = -1;
  for (unsigned i = 0; i < s.size(); ++i) {
    agree = agree && s[i] == t[i];
    if (s[i] == T[a].node) posA = i;
    if (s[i] == T[b].node) posB = i;
    if (s[i] == other[0]) posO = i;
    if (s[i] == other[1]) posQ = i;
    if (s[i] == other[1].getFirstChild()) posZ = i;
  }
  symx_check(agree, "document order does not depend on the order nodes were found in");
  symx_check((a < b) == (posA < posB) && posZ == posQ + 1 && posO == 0 && (a == b || posA - posB == 1 || posB - posA == 1), "nodes of one tree are together and in document order, the document's first");
  symx_reach("order");
}
// namespace nodes
static void namespaces() {
  XPath::XPath<S> xp; xp.setNamespaceContext(nsContext);
  doc = impl().createDocument("", "", 0);
  static const char *const prefix[] = {"xmlns", "xmlns:p", "xmlns:q"};
  DOM::Element<S> e[3];
  std::vector<std::pair<S, S> > want;
  want.push_back(std::make_pair(S("xml"), S("http://www.w3.org/XML/1998/namespace")));
  S in[3]; bool any[3] = {false, false, false};
  for (int i = 0; i < 3; ++i) {
    e[i] = doc.createElement("e");
    if (i) e[i - 1].appendChild(e[i]); else if (symx_pick(2)) doc.appendChild(e[i]);
    unsigned k = symx_pick(4);
    if (k < 3) {
      S uri(1, symx_in("uv", 2)); if (k == 0 && symx_pick(2)) uri = "";
      e[i].setAttributeNS("http://www.w3.org/2000/xmlns/", prefix[k], uri); in[k] = uri; any[k] = true;
    }
    if (i == 1) e[i].setAttribute("x", "y");
  }
  for (int k = 0; k < 3; ++k) if (any[k] && in[k] != "") want.push_back(std::make_pair(S(k == 0 ? "" : k == 1 ? "p" : "q"), in[k]));
  Node text = e[2].appendChild(doc.createTextNode("t")), after = e[1].appendChild(doc.createComment("c")), before = e[1].insertBefore(doc.createComment("b"), e[2]);
  XPath::NodeSet<S> got = xp.evaluate_expr("namespace::*", e[2]).asNodeSet();
  symx_check(got.size() == want.size(), "an element has a namespace node for each prefix in force");
  for (unsigned i = 0; i < want.size(); ++i) {
    bool found = false;
    for (unsigned j = 0; j < got.size(); ++j) found = found || (got[j].getLocalName() == want[i].first && got[j].getNodeValue() == want[i].second);
    symx_check(found, "a namespace node has the innermost declaration of its prefix");
  }
  DOM::Node<S> where[] = {text, after, e[1].getAttributeNode("x"), doc};
  for (int i = 0; i < 4; ++i) symx_check(xp.evaluate_expr("namespace::node()", where[i]).asNodeSet().empty(), "only elements have namespace nodes");
  symx_check(xp.evaluate_expr("count(namespace::* | namespace::node())", e[2]).asNumber() == want.size(), "a namespace node is in a set once");
  symx_check(xp.evaluate_expr("string(namespace::p)", e[2]).asString() == in[1] && xp.evaluate_expr("count(namespace::p)", e[2]).asNumber() == (any[1] ? 1 : 0), "namespace nodes are found by prefix");
  symx_check(xp.evaluate_expr("count(namespace::p:*) + count(@xmlns:*) + count(@xmlns) + count(namespace::*/node()) + count(namespace::*/@*)", e[2]).asNumber() == 0, "namespace nodes have no namespace and are not attributes");
  XPath::NodeSet<S> r;
  r = xp.evaluate_expr("namespace::*[1]/..", e[2]).asNodeSet(); symx_check(r.size() == 1 && r[0] == e[2], "the parent of a namespace node is its element");
  r = xp.evaluate_expr("namespace::*[last()]/following::node()", e[2]).asNodeSet(); symx_check(r.size() == 2 && r[0] == text && r[1] == after, "a namespace node comes before its element's children");
  r = xp.evaluate_expr("namespace::*[1]/preceding::node()", e[2]).asNodeSet(); symx_check(r.size() == 1 && r[0] == before, "a namespace node comes after its element's preceding nodes");
  r = xp.evaluate_expr("namespace::*[1]/ancestor::e", e[2]).asNodeSet(); symx_check(r.size() == 3, "a namespace node has its element and its ancestors above it");
  r = xp.evaluate_expr("namespace::*[1] | text() | .", e[2]).asNodeSet(); r.to_document_order(); symx_check(r.size() == 3 && r[0] == e[2] && r[2] == text, "a namespace node sorts between its element and its children");
  XPath::AxisEnumerator<S> i(e[2], XPath::NAMESPACE), j(i);
  ++i; XPath::AxisEnumerator<S> l(i); i = j;
  unsigned n = 0;
  while (*i != 0 && *j != 0) { symx_check((*i).getLocalName() == (*j).getLocalName(), "a copied enumerator goes on as the original"); ++i; j++; ++n; }
  symx_check(n == want.size() && (*i == 0) == (*j == 0) && (*l == 0) == (n == 1), "a copied enumerator goes on as the original");
  symx_reach("namespaces");
}
static void odd() {
  doc = impl().createDocument("", "r", 0);
  DOM::Attr<S> a = doc.createAttribute("a"); a.setValue("v");
  for (int ax = 0; ax < AXES; ++ax) symx_check(E[ax][ANY]->evaluate(a).asNodeSet().size() == (ax == SELF || ax == ANCSELF || ax == DESCSELF ? 1u : 0u), "an attribute on its own has only itself");
  DOM::Element<S> r = doc.getDocumentElement();
  r.appendChild(doc.createTextNode("t"));
  unsigned n = 1005;
  for (unsigned i = 0; i < n; ++i) r.setAttribute("z" + std::to_string(i), "v");
  XPath::XPath<S> xp;
  XPath::NodeSet<S> s = xp.evaluate_expr("text() | @z1003 | @z7", r).asNodeSet();
  s.to_document_order();
  symx_check(s.size() == 3 && s[2].getNodeType() == Node::TEXT_NODE, "attributes come before children however many there are");
  symx_reach("odd");
}
void symx_main() {
  XPath::XPath<S> xp; xp.setNamespaceContext(nsContext);
  for (int ax = 0; ax < AXES; ++ax) for (int t = 0; t < TESTS; ++t) E[ax][t] = new XPath::XPathExpression<S>(xp.compile(S(axisName[ax]) + "::" + testName[t]));
  int only = symx_param("ONLY", -1);
  switch (only >= 0 ? only : (int)symx_pick(4)) {
    case 0: axes(); break;
    case 1: order(); break;
    case 2: namespaces(); break;
    case 3: odd(); break;
  }
}
