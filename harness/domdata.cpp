// C16: character data operations, splitting and normalising against plain strings.
#include <iostream>
#include <vector>
#include <climits>
#include "symx.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
using namespace Arabica;
typedef std::string S;
typedef DOM::Node<S> Node;
typedef DOM::DOMException X;
static DOM::DOMImplementation<S> impl() { return SimpleDOM::DOMImplementation<S>::getDOMImplementation(); }
static DOM::Document<S> newDoc() { return impl().createDocument("", "", 0); }
static int number(int n) { int k = symx_pick(n + 5); return k == n + 4 ? INT_MAX : k == n + 3 ? INT_MIN : k - 1; }
static void data() {
  DOM::Document<S> doc = newDoc();
  unsigned kind = symx_pick(3), n = symx_pick(symx_param("N", 3) + 1), op = symx_pick(7);
  S was = symx_string(n), arg = symx_string(symx_pick(3));
  DOM::CharacterData<S> c;
  if (kind == 0) c = doc.createTextNode(was);
  if (kind == 1) c = doc.createComment(was);
  if (kind == 2) c = doc.createCDATASection(was);
  symx_check(c.getLength() == (int)n && c.getData() == was && c.getNodeValue() == was, "a new node has the data it was made with");
  S want = was, got;
  int off = op < 2 ? 0 : number(n), count = op == 2 || op > 4 || (op == 4 && symx_pick(2)) ? number(n) : 0, err = 0;
  bool bad = op >= 2 && (off < 0 || off > (int)n || count < 0);
  try {
    switch (op) {
      case 0: c.setData(arg); want = arg; break;
      case 1: c.appendData(arg); want = was + arg; break;
      case 2: got = c.substringData(off, count); break;
      case 3: c.insertData(off, arg); if (!bad) want = was.substr(0, off) + arg + was.substr(off); break;
      case 4: c.setNodeValue(was + arg); want = was + arg; bad = false; break;
      case 5: c.deleteData(off, count); if (!bad) want = was.substr(0, off) + (count > (int)n - off ? S() : was.substr(off + count)); break;
      case 6: c.replaceData(off, count, arg); if (!bad) want = was.substr(0, off) + arg + (count > (int)n - off ? S() : was.substr(off + count)); break;
    }
  } catch (const X &x) { err = x.code(); }
  symx_note("kind %u op %u offset %d count %d: %d", kind, op, off, count, err);
  symx_check(err == (bad ? (int)X::INDEX_SIZE_ERR : 0), "an offset outside the data is refused, any other is not");
  if (op == 2 && !bad) symx_check(got == (count > (int)n - off ? was.substr(off) : was.substr(off, count)), "substring of the data");
  symx_check(c.getData() == want && c.getLength() == (int)want.size(), "the data is what the operation makes it");
  symx_check(c.cloneNode(symx_pick(2)).getNodeValue() == want, "a copy has the same data");
  symx_reach(bad ? "refused" : "data");
}
static void split() {
  DOM::Document<S> doc = newDoc();
  unsigned n = symx_pick(symx_param("N", 3) + 1), where = symx_pick(4);
  bool cdata = symx_pick(2), more = symx_pick(2);
  S was = symx_string(n);
  Node p, after = more ? (Node)doc.createTextNode("z") : Node();
  if (where == 1) p = doc.createElement("e");
  if (where == 2) p = doc.createDocumentFragment();
  if (where == 3) { p = doc.createAttribute("e"); if (cdata) return; }
  if (where) p.appendChild(doc.createTextNode("b"));
  DOM::Text<S> t;
  if (cdata) t = doc.createCDATASection(was); else t = doc.createTextNode(was);
  if (where) { p.appendChild(t); if (more) p.appendChild(after); }
  int off = number(n), err = 0;
  DOM::Text<S> s;
  try { s = t.splitText(off); } catch (const X &x) { err = x.code(); }
  if (off < 0 || off > (int)n) { symx_check(err == X::INDEX_SIZE_ERR && t.getData() == was, "an offset outside the data is refused without effect"); return; }
  symx_check(err == 0 && s != 0, "a split inside the data is carried out");
  if (s == 0) return;
  symx_check(t.getData() == was.substr(0, off) && s.getData() == was.substr(off), "the halves are the whole");
  symx_check(s.getNodeType() == t.getNodeType() && s.getOwnerDocument() == doc, "the second half is the same kind of node");
  if (where == 0) { symx_check(s.getParentNode() == 0 && s.getNextSibling() == 0, "without a parent the halves are on their own"); symx_reach("alone"); return; }
  symx_check(p.getChildNodes().getLength() == 3u + more && p.getChildNodes().item(1) == t && p.getChildNodes().item(2) == s, "the second half comes straight after the first");
  if (more) symx_check(p.getLastChild() == after, "what came after still does");
  if (where == 3) symx_check(p.getNodeValue() == "b" + was + (more ? "z" : ""), "splitting does not change the value");
  symx_reach("split");
}
// what a sequence of children comes to: text runs joined, empty text gone
static void build(DOM::Document<S> doc, Node p, unsigned depth, S &want, bool attr) {
  unsigned n = symx_pick(symx_param("C", 4) + 1 - depth);
  bool run = false;
  for (unsigned i = 0; i < n; ++i) {
    unsigned kind = symx_pick(attr ? 2 : depth ? 3 : 5);
    if (kind < 2) {
      S t(kind, symx_char());
      p.appendChild(doc.createTextNode(t));
      if (kind) { if (!run) want += "T"; want += t; run = true; }
    } else {
      run = false;
      if (kind == 2) { p.appendChild(doc.createCDATASection("")); want += "C"; }
      if (kind == 3) { p.appendChild(doc.createComment("")); want += "M"; }
      if (kind == 4) { DOM::Element<S> e = doc.createElement("e"); p.appendChild(e); want += "E"; build(doc, e, depth + 2, want, false); want += "F"; }
    }
  }
}
static void read(const Node &p, S &out) {
  for (Node c = p.getFirstChild(); c != 0; c = c.getNextSibling()) {
    switch (c.getNodeType()) {
      case Node::TEXT_NODE: out += "T" + c.getNodeValue(); break;
      case Node::CDATA_SECTION_NODE: out += "C"; break;
      case Node::COMMENT_NODE: out += "M"; break;
      default: out += "E"; read(c, out); out += "F";
    }
    symx_check(c.getParentNode() == p || p.getNodeType() == Node::ATTRIBUTE_NODE, "children keep their parent");
  }
}
static void normal() {
  DOM::Document<S> doc = newDoc();
  DOM::Element<S> e = doc.createElement("e");
  unsigned on = symx_pick(3);
  Node p;
  if (on == 0) p = e;
  if (on == 1) p = doc.createDocumentFragment();
  S want;
  if (on == 2) { DOM::Attr<S> a = doc.createAttribute("a"); p = a; build(doc, p, 0, want, true); e.setAttributeNode(a); if (symx_pick(2)) { doc.appendChild(e); doc.normalize(); } else e.normalize(); }
  else { build(doc, p, 0, want, false); p.normalize(); }
  S got;
  read(p, got);
  symx_check(got == want, "normalising joins the text, drops empty text, and changes nothing else");
  p.normalize();
  S again;
  read(p, again);
  symx_check(again == want, "normalising twice is normalising once");
  symx_reach("normal");
}
void symx_main() {
  impl().createDocument("", "r", 0).getDocumentElement().getNodeName();
  { DOM::Document<S> d = newDoc(); d.createTextNode("").getNodeName(); }
  try { throw X(X::NOT_FOUND_ERR); } catch (const X &) {}
  long live = symx_live();
  switch (symx_pick(3)) { case 0: data(); break; case 1: split(); break; case 2: normal(); }
  symx_check(symx_live() == live, "nothing is left behind");
}
