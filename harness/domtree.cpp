// C14: tree operations of the DOM against a model of DOM Level 2, from every reachable shape of a
// pool of nodes, including calls that must fail.
#include <iostream>
#include <vector>
#include <algorithm>
#include "symx.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
using namespace Arabica;
typedef std::string S;
typedef DOM::Node<S> Node;
enum { DOC, ROOT, EL, TEXT, EL2, FRAG, COMMENT, EL3, ATTR, ATEXT, DTYPE, OTHER, FOREIGN, CDATA, PI, NODES };
static const unsigned NONE = NODES;

struct Model { int type; unsigned doc, parent; std::vector<unsigned> kids; };
struct World {
  DOM::Document<S> doc, other;
  std::vector<Node> n;
  std::vector<Model> m;
  void add(const Node &x, unsigned owner = DOC) { Model k; k.type = x.getNodeType(); k.doc = owner; k.parent = NONE; n.push_back(x); m.push_back(k); }
  static bool allowed(int p, int c) {
    switch (c) {
      case Node::ELEMENT_NODE: case Node::PROCESSING_INSTRUCTION_NODE: case Node::COMMENT_NODE: return p == Node::DOCUMENT_NODE || p == Node::ELEMENT_NODE || p == Node::DOCUMENT_FRAGMENT_NODE;
      case Node::TEXT_NODE: return p == Node::ELEMENT_NODE || p == Node::DOCUMENT_FRAGMENT_NODE || p == Node::ATTRIBUTE_NODE;
      case Node::CDATA_SECTION_NODE: return p == Node::ELEMENT_NODE || p == Node::DOCUMENT_FRAGMENT_NODE;
      case Node::DOCUMENT_TYPE_NODE: return p == Node::DOCUMENT_NODE;
      default: return false;
    }
  }
  bool parent(unsigned p) const { int t = m[p].type; return t == Node::ELEMENT_NODE || t == Node::DOCUMENT_NODE || t == Node::DOCUMENT_FRAGMENT_NODE || t == Node::ATTRIBUTE_NODE; }
  bool ancestor(unsigned a, unsigned x) const { for (; x != NONE; x = m[x].parent) if (x == a) return true; return false; }
  // which errors apply to putting c into p, `going` leaving it
  void errors(unsigned p, unsigned c, unsigned going, std::vector<int> &e) const {
    if (!parent(p)) e.push_back(DOM::DOMException::HIERARCHY_REQUEST_ERR);
    if (m[c].doc != NONE && m[c].doc != m[p].doc) e.push_back(DOM::DOMException::WRONG_DOCUMENT_ERR);
    if (ancestor(c, p)) e.push_back(DOM::DOMException::HIERARCHY_REQUEST_ERR);
    std::vector<unsigned> in = m[c].type == Node::DOCUMENT_FRAGMENT_NODE ? m[c].kids : std::vector<unsigned>(1, c);
    unsigned elements = 0, types = 0;
    for (unsigned i = 0; i < in.size(); ++i) { if (!allowed(m[p].type, m[in[i]].type)) e.push_back(DOM::DOMException::HIERARCHY_REQUEST_ERR); elements += m[in[i]].type == Node::ELEMENT_NODE; types += m[in[i]].type == Node::DOCUMENT_TYPE_NODE; }
    if (m[p].type == Node::DOCUMENT_NODE) {
      for (unsigned i = 0; i < m[p].kids.size(); ++i) { unsigned k = m[p].kids[i]; if (k != going && k != c) { elements += m[k].type == Node::ELEMENT_NODE; types += m[k].type == Node::DOCUMENT_TYPE_NODE; } }
      if (elements > 1 || types > 1) e.push_back(DOM::DOMException::HIERARCHY_REQUEST_ERR);
    }
    if (m[c].type == Node::DOCUMENT_TYPE_NODE && m[c].parent != NONE) e.push_back(DOM::DOMException::HIERARCHY_REQUEST_ERR); // stays where it is
  }
  void detach(unsigned c) { if (m[c].parent == NONE) return; std::vector<unsigned> &k = m[m[c].parent].kids; k.erase(std::find(k.begin(), k.end(), c)); m[c].parent = NONE; }
  void attach(unsigned p, unsigned c, unsigned ref) {
    if (m[c].type == Node::DOCUMENT_FRAGMENT_NODE) { while (!m[c].kids.empty()) attach(p, m[c].kids[0], ref); return; }
    if (c == ref) return;
    detach(c);
    std::vector<unsigned> &k = m[p].kids;
    k.insert(ref == NONE ? k.end() : std::find(k.begin(), k.end(), ref), c);
    m[c].parent = p;
    m[c].doc = m[p].doc;
  }
  // op 0 append 1 insertBefore 2 replaceChild 3 removeChild
  bool apply(unsigned op, unsigned p, unsigned c, unsigned r) {
    std::vector<int> e;
    bool child = r != NONE && m[r].parent == p;
    if (op < 3) errors(p, c, op == 2 ? r : NONE, e);
    else if (!parent(p)) e.push_back(DOM::DOMException::NOT_FOUND_ERR);
    if ((op == 1 && r != NONE && !child) || (op >= 2 && !child)) e.push_back(DOM::DOMException::NOT_FOUND_ERR);
    if (op >= 2 && child && m[r].type == Node::DOCUMENT_TYPE_NODE) e.push_back(DOM::DOMException::HIERARCHY_REQUEST_ERR);
    int got = 0;
    Node back, ref;
    if (r != NONE) ref = n[r];
    try {
      if (op == 0) back = n[p].appendChild(n[c]);
      else if (op == 1) back = n[p].insertBefore(n[c], ref);
      else if (op == 2) back = n[p].replaceChild(n[c], ref);
      else back = n[p].removeChild(ref);
    } catch (const DOM::DOMException &x) { got = x.code(); }
    symx_note("op %d parent %d child %d ref %d: got %d, %d errors apply", op, p, c, r, got, (int)e.size());
    if (!e.empty()) { symx_check(std::find(e.begin(), e.end(), got) != e.end(), "an impossible operation is refused for a reason that applies"); symx_reach("refused"); }
    else {
      symx_check(got == 0, "a possible operation is carried out");
      if (got) return false;
      symx_check(back == n[op < 2 ? c : r], "operations return the node they document");
      if (op < 2) attach(p, c, r);
      else if (op == 2) {
        if (c != r) {
          std::vector<unsigned> &k = m[p].kids;
          std::vector<unsigned>::iterator at = std::find(k.begin(), k.end(), r) + 1;
          unsigned next = at == k.end() ? NONE : *at;
          if (next == c) next = ++at == k.end() ? NONE : *at;
          detach(r);
          attach(p, c, next);
        }
      } else detach(r);
      symx_reach("done");
    }
    verify();
    return e.empty();
  }
  unsigned find(const Node &x) const { if (x == 0) return NONE; for (unsigned i = 0; i < n.size(); ++i) if (n[i] == x) return i; symx_fail("a node nobody made"); return NONE; }
  void verify() {
    for (unsigned i = 0; i < NODES; ++i) {
      const Model &x = m[i];
      symx_check(find(n[i].getParentNode()) == (x.parent != NONE ? x.parent : NONE), "a node's parent is the node whose child it is");
      if (i != OTHER && i != DOC) symx_check(x.doc == NONE ? n[i].getOwnerDocument() == 0 : find(n[i].getOwnerDocument()) == x.doc, "a node belongs to its document");
      unsigned k = x.kids.size();
      symx_check(n[i].hasChildNodes() == (k != 0), "has children when it has");
      symx_check(find(n[i].getFirstChild()) == (k ? x.kids[0] : NONE) && find(n[i].getLastChild()) == (k ? x.kids[k - 1] : NONE), "first and last child");
      if (parent(i)) {
        DOM::NodeList<S> l = n[i].getChildNodes();
        symx_check(l.getLength() == k && l.item(k) == 0, "the child list has every child");
        for (unsigned j = 0; j < k && j < l.getLength(); ++j) symx_check(find(l.item(j)) == x.kids[j], "the child list is in order");
      }
      for (unsigned j = 0; j < k; ++j) {
        symx_check(find(n[x.kids[j]].getPreviousSibling()) == (j ? x.kids[j - 1] : NONE), "previous siblings follow the child list");
        symx_check(find(n[x.kids[j]].getNextSibling()) == (j + 1 < k ? x.kids[j + 1] : NONE), "next siblings follow the child list");
      }
      if (x.parent == NONE) symx_check(n[i].getPreviousSibling() == 0 && n[i].getNextSibling() == 0, "a node without a parent has no siblings");
    }
    unsigned el = NONE, ty = NONE;
    for (unsigned j = 0; j < m[DOC].kids.size(); ++j) { unsigned k = m[DOC].kids[j]; if (m[k].type == Node::ELEMENT_NODE) el = k; if (m[k].type == Node::DOCUMENT_TYPE_NODE) ty = k; }
    symx_check(find(doc.getDocumentElement()) == el, "the document element is the document's one element");
    symx_check(find(doc.getDoctype()) == ty, "the document type is the document's one document type");
    symx_check(n[TEXT].getNodeValue() == data && n[COMMENT].getNodeValue() == data && n[ATEXT].getNodeValue() == data, "moving a node does not change it");
  }
  S data;
};
static DOM::DOMImplementation<S> impl() { return SimpleDOM::DOMImplementation<S>::getDOMImplementation(); }
static void run() {
  World w;
  w.data = S(1, symx_char());
  unsigned shape = symx_pick(symx_param("H", 4));
  w.doc = impl().createDocument("", "", 0);
  w.other = impl().createDocument("", "", 0);
  w.add(w.doc);
  w.add(w.doc.createElement("root"));
  w.add(w.doc.createElement("el"));
  w.add(w.doc.createTextNode(w.data));
  w.add(w.doc.createElement("el2"));
  w.add(w.doc.createDocumentFragment());
  w.add(w.doc.createComment(w.data));
  w.add(w.doc.createElement("el3"));
  w.add(w.doc.createAttribute("at"));
  w.add(w.doc.createTextNode(w.data));
  w.add(impl().createDocumentType("root", "", ""), NONE);
  w.add(w.other, OTHER);
  w.add(w.other.createElement("foreign"), OTHER);
  w.add(w.doc.createCDATASection(w.data));
  w.add(w.doc.createProcessingInstruction("p", ""));
  w.m[DTYPE].doc = NONE;
  struct { unsigned p, c; } static const build[4][9] = {
    {{DOC, ROOT}, {ROOT, EL}, {ROOT, TEXT}, {EL, EL2}, {FRAG, COMMENT}, {FRAG, EL3}, {ATTR, ATEXT}, {NONE, 0}},
    {{DOC, DTYPE}, {DOC, COMMENT}, {DOC, ROOT}, {ROOT, EL}, {ROOT, TEXT}, {ROOT, EL2}, {FRAG, EL3}, {NONE, 0}},
    {{DOC, COMMENT}, {DOC, PI}, {FRAG, EL}, {EL, TEXT}, {FRAG, EL2}, {ROOT, EL3}, {NONE, 0}},
    {{DOC, ROOT}, {DOC, PI}, {ROOT, TEXT}, {ROOT, CDATA}, {EL, EL2}, {EL2, EL3}, {EL2, ATEXT}, {NONE, 0}}};
  for (unsigned i = 0; build[shape][i].p != NONE; ++i) { w.n[build[shape][i].p].appendChild(w.n[build[shape][i].c]); w.attach(build[shape][i].p, build[shape][i].c, NONE); }
  w.verify();
  unsigned depth = symx_param("N", 2);
  for (unsigned step = 0; step < depth; ++step) {
    bool full = step == 0; // any nodes at all; afterwards the ones that show what the first step left behind
    static const unsigned parents[] = {ROOT, FRAG, DOC, EL}, kids[] = {EL, FRAG, ROOT, TEXT};
    unsigned op = symx_pick(full ? 4 : 3), p, c = 0, r = NONE;
    if (full) {
      unsigned cap = symx_tier() ? NODES : (unsigned)CDATA;
      p = symx_pick(cap);
      if (op < 3) c = symx_pick(cap);
      if (op) { if (w.parent(p) && !w.m[p].kids.empty() && symx_pick(2)) r = w.m[p].kids[symx_pick(w.m[p].kids.size())]; else { r = symx_pick(4); r = r == 0 ? NONE : r == 1 ? c : r == 2 ? EL : TEXT; } }
    } else {
      p = parents[symx_pick(4)];
      if (op == 0) c = kids[symx_pick(3)];
      if (op == 1) { c = kids[symx_pick(3)]; r = w.m[p].kids.empty() ? NONE : w.m[p].kids[0]; }
      if (op == 2) { if (w.m[p].kids.empty()) return; op = 3; r = w.m[p].kids[symx_pick(w.m[p].kids.size())]; }
    }
    if (!w.apply(op, p, c, r)) return;
  }
}
void symx_main() {
  impl().createDocument("", "r", 0).getDocumentElement().getNodeName();
  try { throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR); } catch (const DOM::DOMException &) {}
  long live = symx_live();
  run();
  symx_check(symx_live() == live, "nothing is left behind");
}
