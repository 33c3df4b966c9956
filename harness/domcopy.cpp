// C17: copies (clone, import) are equal and separate; lists of elements are live.
#include <iostream>
#include <vector>
#include <algorithm>
#include "symx.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
using namespace Arabica;
typedef std::string S;
typedef DOM::Node<S> Node;
typedef DOM::DOMException X;
static DOM::DOMImplementation<S> impl() { return SimpleDOM::DOMImplementation<S>::getDOMImplementation(); }
static DOM::Document<S> newDoc() { return impl().createDocument("", "", 0); }
static S letter() { return S(1, symx_in("ab", 2)); }
static S datum() { return S(1, symx_char()); }
static Node make(DOM::Document<S> &doc, unsigned kind) {
  switch (kind) {
    case 0: { DOM::Element<S> e = doc.createElement("e"); e.setAttribute("x", datum()); return e; }
    case 1: { DOM::Element<S> e = doc.createElementNS("u", "p:e"); e.setAttributeNS("v", "q:x", datum()); e.setAttributeNS("", "x", datum()); return e; }
    case 2: return doc.createTextNode(datum());
    case 3: return doc.createCDATASection(datum());
    case 4: return doc.createComment(datum());
    case 5: return doc.createProcessingInstruction("t", "d");
    case 6: return doc.createDocumentFragment();
    case 7: { DOM::Attr<S> a = doc.createAttribute("x"); a.setValue(datum()); a.appendChild(doc.createTextNode(datum())); return a; }
    default: { DOM::Attr<S> a = doc.createAttributeNS("u", "p:x"); a.setValue(datum()); return a; }
  }
}
static bool container(const Node &n) { int t = n.getNodeType(); return t == Node::ELEMENT_NODE || t == Node::DOCUMENT_FRAGMENT_NODE; }
static void fill(DOM::Document<S> &doc, Node n, unsigned depth) {
  if (!container(n)) return;
  unsigned k = symx_pick(3);
  for (unsigned i = 0; i < k; ++i) { Node c = make(doc, i == 0 ? symx_pick(6) : 0); n.appendChild(c); if (depth && i == 0) fill(doc, c, depth - 1); }
}
static void same(const Node &a, const Node &b, bool deep, const Node &doc) {
  symx_check(a != b && a.getNodeType() == b.getNodeType(), "a copy is a new node of the same kind");
  symx_check(a.getNodeName() == b.getNodeName() && a.getNodeValue() == b.getNodeValue() && a.getNamespaceURI() == b.getNamespaceURI() && a.getLocalName() == b.getLocalName() && a.getPrefix() == b.getPrefix(), "a copy has the same names and value");
  if (doc != 0) symx_check(b.getOwnerDocument() == doc, "a copy belongs to the document that made it");
  if (a.getNodeType() == Node::ELEMENT_NODE) {
    DOM::NamedNodeMap<S> m = a.getAttributes(), k = b.getAttributes();
    symx_check(m.getLength() == k.getLength(), "a copied element has all the attributes");
    for (unsigned i = 0; i < m.getLength(); ++i) {
      Node x = m.item(i), y = x.getLocalName().empty() ? k.getNamedItem(x.getNodeName()) : k.getNamedItemNS(x.getNamespaceURI(), x.getLocalName());
      symx_check(y != 0, "a copied element has each attribute");
      if (y == 0) return;
      same(x, y, true, doc);
    }
  }
  bool all = deep || a.getNodeType() == Node::ATTRIBUTE_NODE;
  Node x = a.getFirstChild(), y = b.getFirstChild();
  if (!all) { symx_check(y == 0, "a shallow copy has no children"); return; }
  while (x != 0 && y != 0) {
    same(x, y, true, doc);
    if (a.getNodeType() != Node::ATTRIBUTE_NODE) symx_check(y.getParentNode() == b, "a copied child's parent is the copy");
    x = x.getNextSibling();
    y = y.getNextSibling();
  }
  symx_check(x == 0 && y == 0, "a deep copy has as many children");
}
static void print(const Node &a, S &s) {
  s += char('0' + a.getNodeType());
  if (a.getNodeType() != Node::ELEMENT_NODE) s += a.getNodeValue();
  else { DOM::NamedNodeMap<S> m = a.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) s += m.item(i).getNodeName() + m.item(i).getNodeValue(); }
  for (Node c = a.getFirstChild(); c != 0; c = c.getNextSibling()) print(c, s);
  s += ')';
}
static void spoil(DOM::Document<S> &doc, Node a) {
  if (a.getNodeType() == Node::ELEMENT_NODE) { DOM::Element<S> e(a); DOM::NamedNodeMap<S> m = e.getAttributes(); while (m.getLength()) { DOM::Attr<S> x(m.item(0)); x.setValue("zz"); e.removeAttributeNode(x); } }
  for (Node c = a.getFirstChild(); c != 0; c = c.getNextSibling()) spoil(doc, c);
  int t = a.getNodeType();
  if (t == Node::TEXT_NODE || t == Node::CDATA_SECTION_NODE || t == Node::COMMENT_NODE || t == Node::ATTRIBUTE_NODE || t == Node::PROCESSING_INSTRUCTION_NODE) a.setNodeValue("zz");
  while (a.getFirstChild() != 0) a.removeChild(a.getFirstChild());
}
static void copy() {
  DOM::Document<S> doc = newDoc(), other = newDoc();
  Node n = make(doc, symx_pick(9));
  fill(doc, n, symx_param("D", 1));
  Node home;
  if (n.getNodeType() == Node::ELEMENT_NODE && symx_pick(2)) { home = doc; home.appendChild(n); }
  bool deep = symx_pick(2), import = symx_pick(2);
  S before, after;
  print(n, before);
  Node c = import ? other.importNode(n, deep) : n.cloneNode(deep);
  symx_check(c != 0, "every node can be copied");
  same(n, c, deep, import ? other : doc);
  symx_check(c.getParentNode() == 0 && c.getNextSibling() == 0, "a copy has no parent");
  symx_check(n.getOwnerDocument() == doc && (home == 0 ? n.getParentNode() == 0 : n.getParentNode() == home), "copying leaves the original where it was");
  spoil(import ? other : doc, c);
  print(n, after);
  symx_check(before == after, "changing a copy does not change the original");
  symx_reach(import ? "import" : "clone");
}
static void copyDocument() {
  DOM::Document<S> doc = symx_pick(2) ? impl().createDocument("", "", impl().createDocumentType("e", datum(), "s")) : newDoc();
  if (symx_pick(2)) doc.appendChild(make(doc, 4));
  Node e = make(doc, symx_pick(2));
  doc.appendChild(e);
  e.appendChild(make(doc, symx_pick(6)));
  if (symx_pick(2)) doc.appendChild(make(doc, 5));
  bool deep = symx_pick(2);
  DOM::Document<S> c(doc.cloneNode(deep));
  symx_check(c != 0 && c != doc, "a document can be copied");
  if (c == 0) return;
  Node x = doc.getFirstChild(), y = c.getFirstChild();
  if (deep) {
    for (; x != 0 && y != 0; x = x.getNextSibling(), y = y.getNextSibling()) same(x, y, true, c);
    symx_check(x == 0 && y == 0, "a copied document has as many children");
    symx_check(c.getDocumentElement() != 0 && c.getDocumentElement().getParentNode() == c, "a copied document has a document element");
  }
  if (deep && doc.getDoctype() != 0) { symx_check(c.getDoctype() != 0 && c.getDoctype() != doc.getDoctype(), "a copied document has its own document type"); if (c.getDoctype() != 0) symx_check(c.getDoctype().getPublicId() == doc.getDoctype().getPublicId() && c.getDoctype().getName() == doc.getDoctype().getName(), "a copied document type is the same"); }
  symx_reach("document");
}
static void refused() {
  DOM::Document<S> doc = newDoc(), other = impl().createDocument("", "r", impl().createDocumentType("r", "", ""));
  int code = 0;
  try { doc.importNode(symx_pick(2) ? (Node)other : (Node)other.getDoctype(), symx_pick(2)); } catch (const X &x) { code = x.code(); }
  symx_check(code == X::NOT_SUPPORTED_ERR, "documents and document types cannot be imported");
}
// lists
static void walk(const Node &n, bool ns, const S &u, const S &l, std::vector<Node> &out) {
  for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) {
    if (c.getNodeType() != Node::ELEMENT_NODE) continue;
    if (ns ? (u == "*" || u == c.getNamespaceURI()) && !c.getLocalName().empty() && (l == "*" || l == c.getLocalName()) : l == "*" || l == c.getNodeName()) out.push_back(c);
    walk(c, ns, u, l, out);
  }
}
static void lists() {
  DOM::Document<S> doc = newDoc();
  DOM::Element<S> root = doc.createElementNS("u", "a"), e = doc.createElementNS("u", "p:" + letter()), f = doc.createElementNS("", letter()), g = doc.createElementNS("u", letter());
  doc.appendChild(root);
  unsigned shape = symx_pick(3);
  if (shape == 0) { root.appendChild(e); root.appendChild(f); }
  if (shape == 1) { root.appendChild(e); e.appendChild(f); }
  if (shape == 2) { root.appendChild(e); root.appendChild(doc.createTextNode("a")); e.appendChild(g); }
  bool ns = symx_pick(2), whole = symx_pick(2);
  static const char *const us[] = {"", "u", "*", "v"}, *const ls[] = {"a", "b", "*", "p:a"};
  S u = ns ? us[symx_pick(4)] : "", l = ls[symx_pick(ns ? 3 : 4)];
  DOM::NodeList<S> list = whole ? (ns ? doc.getElementsByTagNameNS(u, l) : doc.getElementsByTagName(l)) : ns ? root.getElementsByTagNameNS(u, l) : root.getElementsByTagName(l);
  DOM::NodeList<S> kids = root.getChildNodes();
  if (symx_pick(2)) symx_check(list.item(list.getLength()) == 0, "there is nothing past the end of a list");
  unsigned n = symx_param("M", 1);
  for (unsigned step = 0; step <= n; ++step) {
    std::vector<Node> want;
    walk(whole ? (Node)doc : (Node)root, ns, u, l, want);
    bool first = symx_pick(2);
    if (!first) symx_check(list.getLength() == want.size(), "a list has as many elements as there are");
    for (unsigned i = 0; i < want.size(); ++i) symx_check(list.item(i) == want[i], "a list has each element in document order");
    symx_check(list.item(want.size()) == 0 && list.getLength() == want.size(), "a list has no other elements");
    Node k = root.getFirstChild();
    for (unsigned i = 0; i < kids.getLength(); ++i) { symx_check(kids.item(i) == k, "a child list is live"); k = k == 0 ? k : k.getNextSibling(); }
    if (step == n) break;
    switch (symx_pick(6)) {
      case 0: root.appendChild(g); break;
      case 1: if (f.getParentNode() != 0) f.getParentNode().removeChild(f); break;
      case 2: root.insertBefore(doc.createElementNS("u", "b"), root.getFirstChild()); break;
      case 3: e.setPrefix(symx_pick(2) ? "q" : ""); break;
      case 4: root.replaceChild(g, e); break;
      case 5: { DOM::DocumentFragment<S> fr = doc.createDocumentFragment(); fr.appendChild(doc.createElementNS("", "a")); fr.appendChild(doc.createElementNS("u", "p:a")); root.insertBefore(fr, e); } break;
    }
  }
  symx_reach("lists");
}
void symx_main() {
  impl().createDocument("", "r", 0).getDocumentElement().getNodeName();
  { DOM::Document<S> d = newDoc(); for (unsigned i = 0; i < 9; ++i) make(d, i).getNodeName(); d.getNodeName(); DOM::DocumentType<S> t = impl().createDocumentType("e", "", ""); t.getNodeName(); d.createElement("e").getElementsByTagName("*"); }
  try { throw X(X::NOT_FOUND_ERR); } catch (const X &) {}
  long live = symx_live();
  switch (symx_pick(4)) { case 0: copy(); break; case 1: copyDocument(); break; case 2: refused(); break; case 3: lists(); break; }
  symx_check(symx_live() == live, "nothing is left behind");
}
