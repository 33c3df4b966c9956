// C15: attributes of an element, by node, by name and by namespace, through the element and through
// its map, against a list of records. With and without a document type that supplies defaults and ids.
#include <iostream>
#include <vector>
#include <algorithm>
#include "symx.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/DocumentTypeImpl.hpp>
#include <DOM/Document.hpp>
using namespace Arabica;
typedef std::string S;
typedef DOM::Attr<S> Attr;
typedef DOM::DOMException X;
struct Rec { Attr node; S uri, local, name, value; bool specified; }; // local empty: made without a namespace
static const char *const names[] = {"a", "b", "p:a", "q:a"}, *const uris[] = {"", "u", "v"}, *const locals[] = {"a", "b"};
static DOM::DOMImplementation<S> impl() { return SimpleDOM::DOMImplementation<S>::getDOMImplementation(); }
static DOM::NamedNodeMap<S> M(const DOM::Element<S> &e) { return e.getAttributes(); }
struct World {
  DOM::Document<S> doc, other;
  DOM::Element<S> e, f;
  S id;
  std::vector<Rec> pool, has; // the attribute nodes around; the attributes e has
  bool defaults;
  Attr used;
  int byName(const S &n) const { for (unsigned i = 0; i < has.size(); ++i) if (has[i].name == n) return i; return -1; }
  int byNS(const S &u, const S &l) const { for (unsigned i = 0; i < has.size(); ++i) if (has[i].uri == u && (has[i].local.empty() ? has[i].name : has[i].local) == l) return i; return -1; }
  int in(const Attr &x) const { for (unsigned i = 0; i < has.size(); ++i) if (has[i].node == x) return i; return -1; }
  void add(const Attr &x, const S &u, const S &l, const S &n, const S &v) { Rec r; r.node = x; r.uri = u; r.local = l; r.name = n; r.value = v; r.specified = true; pool.push_back(r); }
  // the attribute gone from e is in the pool, where it must be once again its own master
  void drop(unsigned i, bool back) {
    Rec r = has[i];
    has.erase(has.begin() + i);
    symx_check(r.node.getOwnerElement() == 0, "an attribute taken off its element has no owner");
    symx_check(r.node.getValue() == r.value, "an attribute taken off its element keeps its value");
    bool known = false;
    for (unsigned k = 0; k < pool.size(); ++k) known |= pool[k].node == r.node;
    if (!known) pool.push_back(r);
    if (back && defaults && r.name == "b" && byName("b") < 0) {
      Rec d; d.node = e.getAttributeNode("b"); d.uri = r.uri; d.local = r.local; d.name = "b"; d.value = "d"; d.specified = false;
      symx_check(d.node != 0, "a default reappears when its attribute goes");
      if (d.node == 0) return;
      symx_check(d.node != r.node, "the default is not the attribute removed");
      has.push_back(d);
      symx_reach("default");
    }
  }
  void supersede(const S &name, const S &local) { if (local.empty()) return; for (unsigned i = 0; i < has.size(); ++i) if (!has[i].specified && has[i].local.empty() && has[i].name == name) { drop(i, false); return; } }
  void verify() {
    DOM::NamedNodeMap<S> m = M(e);
    symx_check(m.getLength() == has.size() && m.item(has.size()) == 0, "the map has every attribute and no other");
    symx_check(e.hasAttributes() == !has.empty(), "has attributes when it has");
    for (unsigned i = 0; i < m.getLength(); ++i) {
      DOM::Node<S> n = m.item(i);
      int seen = 0;
      for (unsigned j = 0; j < has.size(); ++j) seen += has[j].node == n;
      symx_check(seen == 1, "the map lists each attribute once");
    }
    for (unsigned i = 0; i < has.size(); ++i) {
      const Rec &r = has[i];
      symx_check(r.node.getValue() == r.value && r.node.getNodeValue() == r.value, "attributes have the value last given them");
      symx_check(r.node.getName() == r.name && r.node.getNamespaceURI() == r.uri && r.node.getLocalName() == r.local, "attributes keep their names");
      symx_check(r.node.getOwnerElement() == e && r.node.getSpecified() == r.specified, "attributes know their element and whether they were specified");
    }
    for (unsigned i = 0; i < 4; ++i) {
      int at = byName(names[i]);
      symx_check(e.hasAttribute(names[i]) == (at >= 0), "has an attribute of that name when it has");
      symx_check(e.getAttribute(names[i]) == (at < 0 ? S() : has[at].value), "the value of the attribute of that name");
      symx_check(at < 0 ? e.getAttributeNode(names[i]) == 0 && m.getNamedItem(names[i]) == 0 : e.getAttributeNode(names[i]) == has[at].node && m.getNamedItem(names[i]) == has[at].node, "the attribute of that name");
    }
    for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 2; ++j) {
      int at = byNS(uris[i], locals[j]);
      symx_check(e.hasAttributeNS(uris[i], locals[j]) == (at >= 0), "has an attribute of that namespace and name when it has");
      symx_check(e.getAttributeNS(uris[i], locals[j]) == (at < 0 ? S() : has[at].value), "the value of the attribute of that namespace and name");
      symx_check(at < 0 ? e.getAttributeNodeNS(uris[i], locals[j]) == 0 && m.getNamedItemNS(uris[i], locals[j]) == 0 : e.getAttributeNodeNS(uris[i], locals[j]) == has[at].node && m.getNamedItemNS(uris[i], locals[j]) == has[at].node, "the attribute of that namespace and name");
    }
    for (unsigned i = 0; i < pool.size(); ++i) if (in(pool[i].node) < 0) symx_check(pool[i].node == used ? pool[i].node.getOwnerElement() == f : pool[i].node.getOwnerElement() == 0, "attributes that are not of this element do not think they are");
    symx_check(f.getAttributeNode("b") == used && f.getAttributes().getLength() == 1, "another element's attributes are not affected");
    if (!defaults) return;
    ids(true);
  }
  void ids(bool there) { // attributes named a
    if (!defaults) return;
    if (id.empty()) id = S(1, symx_in("xyz", 3));
    S v = id;
    bool any = false;
    for (unsigned i = 0; i < has.size(); ++i) { if (!has[i].uri.empty()) return; any |= has[i].name == "a" && has[i].value == v; } // renaming does not make an id
    DOM::Element<S> found = doc.getElementById(v);
    symx_check(any && there ? found == e : found == 0, "the element found by id is the one with that id now");
  }
  void set(unsigned how, bool ns, unsigned which) {
    Rec &r = pool[which];
    DOM::Node<S> back;
    int got = 0;
    try {
      if (how == 0) back = ns ? e.setAttributeNodeNS(r.node) : e.setAttributeNode(r.node);
      else back = ns ? M(e).setNamedItemNS(r.node) : M(e).setNamedItem(r.node);
    } catch (const X &x) { got = x.code(); }
    symx_note("set node %d ns %d: %d", which, ns, got);
    int here = in(r.node);
    if (here >= 0) { symx_check(got == 0 && (back == 0 || back == r.node), "setting an attribute already here changes nothing"); return; }
    if (r.node == used) { symx_check(got == X::INUSE_ATTRIBUTE_ERR, "an attribute in use elsewhere is refused"); return; }
    if (r.node.getOwnerDocument() != doc) { symx_check(got == X::WRONG_DOCUMENT_ERR, "an attribute of another document is refused"); return; }
    symx_check(got == 0, "an attribute nobody has is accepted");
    int at = ns ? byNS(r.uri, r.local.empty() ? r.name : r.local) : byName(r.name);
    symx_check(at < 0 ? back == 0 : back == has[at].node, "the attribute replaced is returned");
    Rec now = r;
    if (at >= 0) { drop(at, false); symx_reach("replaced"); }
    has.push_back(now);
    if (ns) supersede(now.name, now.local);
  }
  void remove(unsigned how, unsigned i, unsigned j) {
    int at = how < 2 ? byName(names[i]) : byNS(uris[i], locals[j]), got = 0;
    DOM::Node<S> back, gone;
    if (at >= 0) gone = has[at].node;
    try {
      if (how == 0) e.removeAttribute(names[i]);
      if (how == 1) back = M(e).removeNamedItem(names[i]);
      if (how == 2) e.removeAttributeNS(uris[i], locals[j]);
      if (how == 3) back = M(e).removeNamedItemNS(uris[i], locals[j]);
    } catch (const X &x) { got = x.code(); }
    symx_note("remove %d %d %d: %d", how, i, j, got);
    if (at < 0) { symx_check(how % 2 ? got == X::NOT_FOUND_ERR : got == 0 || got == X::NOT_FOUND_ERR, "there is nothing to remove"); symx_reach("missing"); return; }
    symx_check(got == 0 && (how % 2 == 0 || back == gone), "the attribute removed is returned");
    drop(at, true);
  }
  void step() {
    unsigned op = symx_pick(7);
    symx_note("op %u defaults %d", op, defaults);
    if (op == 0) {
      S n = names[symx_pick(3)], v = S(1, symx_in("xyz", 3));
      e.setAttribute(n, v);
      int at = byName(n);
      if (at >= 0) { has[at].value = v; has[at].specified = true; symx_check(e.getAttributeNode(n) == has[at].node, "setting a value keeps the attribute"); }
      else { Rec r; r.node = e.getAttributeNode(n); r.name = n; r.value = v; r.specified = true; symx_check(r.node != 0 && in(r.node) < 0, "setting a value makes an attribute"); has.push_back(r); }
    } else if (op == 1) {
      unsigned i = symx_pick(3), j = symx_pick(4);
      symx_note("ns %s %s", uris[i], names[j]);
      S n = names[j], v = S(1, symx_in("xyz", 3)), l = n.size() > 1 ? n.substr(2) : n;
      if (defaults && i && j == 1) return; // the name of a default, in a namespace
      int got = 0;
      try { e.setAttributeNS(uris[i], n, v); } catch (const X &x) { got = x.code(); }
      if (i == 0 && n.size() > 1) { symx_check(got == X::NAMESPACE_ERR, "a prefix needs a namespace"); return; }
      symx_check(got == 0, "a qualified name is accepted");
      int at = byNS(uris[i], l);
      if (at >= 0) { has[at].value = v; has[at].specified = true; if (i) has[at].name = n; symx_check(e.getAttributeNodeNS(uris[i], l) == has[at].node, "setting a value keeps the attribute"); }
      else { Rec r; r.node = e.getAttributeNodeNS(uris[i], l); r.uri = uris[i]; r.local = l; r.name = n; r.value = v; r.specified = true; symx_check(r.node != 0 && in(r.node) < 0, "setting a value makes an attribute"); supersede(n, l); has.push_back(r); }
    } else if (op == 2) {
      unsigned how = symx_pick(4), i = how < 2 ? symx_pick(3) : symx_pick(2);
      remove(how, i, how < 2 ? 0 : symx_pick(2));
    } else if (op == 3) {
      unsigned how = symx_pick(2);
      bool ns = symx_pick(2);
      set(how, ns, symx_pick(6));
    } else if (op == 4) {
      Attr a = pool[symx_pick(pool.size() < 7 ? pool.size() : 7)].node;
      int at = in(a), got = 0;
      Attr back;
      try { back = e.removeAttributeNode(a); } catch (const X &x) { got = x.code(); }
      symx_note("remove node: %d", got);
      if (at < 0) symx_check(got == X::NOT_FOUND_ERR, "an attribute that is not here cannot be removed");
      else { symx_check(got == 0 && back == a, "the attribute removed is returned"); drop(at, true); }
    } else if (op == 5) {
      if (has.empty()) return;
      Rec &r = has[symx_pick(has.size())];
      if (!r.specified) return;
      unsigned how = symx_pick(4);
      S v = S(1, symx_in("xyz", 3));
      if (how == 0) { r.node.setValue(v); r.value = v; r.specified = true; }
      if (how == 1) { r.node.getFirstChild().setNodeValue(v); r.value = v + r.value.substr(1); }
      if (how == 2) { r.node.appendChild(doc.createTextNode(v)); r.value += v; }
      if (how == 3) { r.node.removeChild(r.node.getFirstChild()); r.value = r.value.substr(1); if (r.value.empty()) r.node.setValue(r.value = "x"), r.specified = true; }
    } else {
      int got = 0;
      unsigned how = symx_pick(4);
      try {
        if (how == 0) e.setAttribute("a\x01", "v");
        if (how == 1) e.setAttributeNS("u", "<", "v");
        if (how == 2) M(e).setNamedItem(doc.createElement("a"));
        if (how == 3) M(e).setNamedItemNS(doc.createTextNode("a"));
      } catch (const X &x) { got = x.code(); }
      symx_check(got == (how < 2 ? X::INVALID_CHARACTER_ERR : X::HIERARCHY_REQUEST_ERR), "what cannot be an attribute is refused");
      symx_reach("refused");
    }
  }
};
static void run() {
  World w;
  w.defaults = symx_pick(2);
  DOM::DocumentType<S> dt;
  SAX2DOM::DocumentType<S, default_string_adaptor<S> > *raw = 0;
  if (w.defaults) { raw = new SAX2DOM::DocumentType<S, default_string_adaptor<S> >("e", "", ""); dt = raw; }
  w.doc = impl().createDocument("", "", dt);
  w.other = impl().createDocument("", "", 0);
  if (raw) { raw->addElementId("e", "a"); raw->addElementId("f", "b"); raw->addDefaultAttr("e", "b", "d"); }
  w.e = w.doc.createElement("e");
  w.f = w.doc.createElement("f");
  w.doc.appendChild(w.e);
  DOM::Element<S> g = w.doc.createElement("g"); // where a is not an id
  g.setAttribute("a", "x");
  w.e.appendChild(g);
  w.add(w.doc.createAttribute("a"), "", "", "a", "x");
  w.add(w.doc.createAttribute("b"), "", "", "b", "x");
  w.add(w.doc.createAttributeNS("u", "p:a"), "u", "a", "p:a", "x");
  w.add(w.doc.createAttributeNS("", "a"), "", "a", "a", "x");
  w.add(w.other.createAttribute("a"), "", "", "a", "x");
  w.add(w.doc.createAttribute("b"), "", "", "b", "x");
  for (unsigned i = 0; i < w.pool.size(); ++i) w.pool[i].node.setValue("x");
  w.used = w.pool[5].node;
  w.f.setAttributeNode(w.used);
  if (w.defaults) {
    Rec r; r.node = w.e.getAttributeNode("b"); r.name = "b"; r.value = "d"; r.specified = false;
    symx_check(r.node != 0, "an element has its default attributes");
    if (r.node == 0) return;
    w.has.push_back(r);
  }
  unsigned n = symx_param("N", 2);
  for (unsigned i = 0; i < n; ++i) w.step();
  w.verify();
  // a copy has the same attributes, if they can be told apart
  for (unsigned i = 0; i < w.has.size(); ++i) for (unsigned j = 0; j < i; ++j) {
    const Rec &a = w.has[i], &b = w.has[j];
    if (a.uri == b.uri && (a.local.empty() ? a.name : a.local) == (b.local.empty() ? b.name : b.local)) return;
  }
  DOM::Element<S> c(w.e.cloneNode(symx_pick(2)));
  symx_check(c.getAttributes().getLength() == w.has.size(), "a copied element has as many attributes");
  for (unsigned i = 0; i < w.has.size(); ++i) {
    const Rec &r = w.has[i];
    Attr a = c.getAttributeNodeNS(r.uri, r.local.empty() ? r.name : r.local);
    symx_check(a != 0 && a != r.node, "a copied element has attributes of its own");
    if (a != 0) symx_check(a.getValue() == r.value && a.getSpecified() == r.specified && a.getName() == r.name && a.getOwnerElement() == c, "copied attributes are the same");
  }
  w.ids(true); // the copy is not in the document
  w.doc.removeChild(w.e);
  w.ids(false);
  c = DOM::Element<S>();
  symx_reach("done");
}
void symx_main() {
  impl().createDocument("", "r", 0).getDocumentElement().getNodeName();
  try { throw X(X::NOT_FOUND_ERR); } catch (const X &) {}
  long live = symx_live();
  run();
  symx_check(symx_live() == live, "nothing is left behind");
}
