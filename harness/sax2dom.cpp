// C25: SAX2DOM against a reader that reports arbitrary event sequences: the document built mirrors them.
#include <iostream>
#include <sstream>
#include <vector>
#include <map>
#include <functional>
#include <memory>
#include "symx.h"
#include <expat.h>
#include <SAX/XMLReader.hpp>
#include <../src/SAX/wrappers/saxexpat.cpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
using namespace Arabica;
typedef std::string S;
typedef default_string_adaptor<S> SA;
#include "expatstub.h"
typedef DOM::Node<S> N;
typedef DOM::DOMException X;

// ---- entity values are parsed with the default reader, over this little parser
static int scan(XML_Parser p, const S &t) {
  std::vector<S> open;
  const char *none[] = {0};
  for (size_t i = 0; i < t.size();) {
    if (t[i] == '&') {
      if (t.compare(i, 5, "&#60;") == 0) p->chars(p->user, "<", 1), i += 5;
      else return 0; // nothing is declared here
    } else if (t[i] != '<') p->chars(p->user, &t[i], 1), ++i;
    else {
      size_t e = t.find('>', i);
      if (e == S::npos) return 0;
      S name = t.substr(i + 1, e - i - 1);
      i = e + 1;
      if (!name.empty() && name[0] == '/') { if (open.empty() || open.back() != name.substr(1)) return 0; open.pop_back(); p->end(p->user, name.c_str() + 1); continue; }
      bool empty = !name.empty() && name[name.size() - 1] == '/';
      if (empty) name.erase(name.size() - 1);
      if (name != "wrapper" && name != "i") return 0;
      p->start(p->user, name.c_str(), none);
      if (empty) p->end(p->user, name.c_str()); else open.push_back(name);
    }
  }
  return open.empty();
}
static S scanned;

// ---- the reader
struct Fake;
static std::function<void(Fake &)> events;
static std::map<S, bool> features;
static unsigned readers;
struct Fake : SAX::XMLReaderInterface<S, SA> {
  EntityResolverT *er; DTDHandlerT *dtd; ContentHandlerT *c; ErrorHandlerT *err; DeclHandlerT *decl; LexicalHandlerT *lex;
  Fake() : er(0), dtd(0), c(0), err(0), decl(0), lex(0) { ++readers; }
  ~Fake() { --readers; }
  bool getFeature(const S &n) const { return features[n]; }
  void setFeature(const S &n, bool v) { features[n] = v; if (n == "unknown") throw SAX::SAXNotRecognizedException(""); }
  void setEntityResolver(EntityResolverT &r) { er = &r; }
  EntityResolverT *getEntityResolver() const { return er; }
  void setDTDHandler(DTDHandlerT &h) { dtd = &h; }
  DTDHandlerT *getDTDHandler() const { return dtd; }
  void setContentHandler(ContentHandlerT &h) { c = &h; }
  ContentHandlerT *getContentHandler() const { return c; }
  void setErrorHandler(ErrorHandlerT &h) { err = &h; }
  ErrorHandlerT *getErrorHandler() const { return err; }
  void setDeclHandler(DeclHandlerT &h) { decl = &h; }
  DeclHandlerT *getDeclHandler() const { return decl; }
  void setLexicalHandler(LexicalHandlerT &h) { lex = &h; }
  LexicalHandlerT *getLexicalHandler() const { return lex; }
  void parse(InputSourceT &) { events(*this); }
};
typedef SAX2DOM::Parser<S, SA, Fake> Parser;
struct Errors : SAX::ErrorHandler<S, SA> {
  unsigned warnings, errors, fatals;
  Errors() : warnings(0), errors(0), fatals(0) {}
  void warning(const SAXParseExceptionT &) { ++warnings; }
  void error(const SAXParseExceptionT &) { ++errors; }
  void fatalError(const SAXParseExceptionT &) { ++fatals; }
};
struct Resolver : SAX::EntityResolver<S, SA> { InputSourceT resolveEntity(const S &p, const S &s) { return InputSourceT(p + s + "!"); } };

// ---- what should be built
struct M { int type; S name, uri, value; std::map<S, S> atts, uris; std::vector<M> kids; M(int t = 0, const S &n = "", const S &v = "") : type(t), name(n), value(v) {} };
static void add(M &to, const M &m, bool merge) {
  if (m.type == 3 && m.value.empty()) return;
  if (merge && m.type == 3 && !to.kids.empty() && to.kids.back().type == 3) to.kids.back().value += m.value;
  else to.kids.push_back(m);
}
// text is compared joined up: where it is split at the edges of an entity is nobody's business
static void same(N node, const M &m, bool split = false) {
  std::vector<M> kids;
  for (size_t i = 0; i < m.kids.size(); ++i) { M k(3, "", m.kids[i].value); if (m.kids[i].type == 3 && !kids.empty() && kids.back().type == 3) kids.back().value += k.value; else kids.push_back(m.kids[i]); }
  size_t at = 0;
  for (N c = node.getFirstChild(); c != 0;) {
    int t = c.getNodeType();
    if (t == 5 && c.getNodeName() == "z") { c = c.getNextSibling(); continue; } // stands for an entity with nothing in it
    if (t == 3) {
      S v;
      unsigned n = 0;
      for (; c != 0 && (c.getNodeType() == 3 || (c.getNodeType() == 5 && c.getNodeName() == "z")); c = c.getNextSibling()) if (c.getNodeType() == 3) v += c.getNodeValue(), ++n;
      if (v.empty() && split) continue;
      symx_note("text %s, want %s", v.c_str(), at < kids.size() ? kids[at].value.c_str() : "nothing");
      symx_check(at < kids.size() && kids[at].type == 3 && kids[at].value == v, "text is the text reported");
      symx_check(split || n == 1, "text that is one run is one node");
      if (at >= kids.size() || kids[at].type != 3) return;
      ++at;
      continue;
    }
    if (at >= kids.size()) { symx_fail("nothing is built that was not reported"); return; }
    const M &k = kids[at++];
    symx_check(t == k.type && (t == 4 || t == 8 || c.getNodeName() == k.name), "nodes are of the kind and name reported, in order");
    if (t != k.type) return;
    symx_check(c.getParentNode() == node && c.getOwnerDocument() == (node.getNodeType() == 9 ? DOM::Document<S>(node) : node.getOwnerDocument()), "every node is in the document built");
    if (t == 4 || t == 7 || t == 8) symx_check(c.getNodeValue() == k.value, "values are as reported");
    if (t == 1) {
      symx_check(c.getNamespaceURI() == k.uri, "element namespaces are as reported");
      DOM::NamedNodeMap<S> a = c.getAttributes();
      symx_check(a.getLength() == k.atts.size(), "elements have the attributes reported");
      for (std::map<S, S>::const_iterator i = k.atts.begin(); i != k.atts.end(); ++i) {
        N n = a.getNamedItem(i->first);
        symx_check(n != 0, "elements have each attribute reported");
        if (n == 0) continue;
        symx_check(n.getNodeValue() == i->second, "attribute values are as reported");
        symx_check(n.getNamespaceURI() == k.uris.find(i->first)->second, "attribute namespaces are as reported");
      }
    }
    if (t != 10 && t != 5) same(c, k, split);
    c = c.getNextSibling();
  }
  symx_check(at == kids.size(), "everything reported is built");
}
static S one() { return S(1, symx_char()); }

// ---- telling the reader's handlers and the model the same things
struct Teller {
  Fake &f;
  M root;
  std::vector<M *> open; // deepest last; grown only at the end, so these stay put until popped
  std::vector<std::unique_ptr<M> > made;
  bool namespaces;
  Teller(Fake &fake, bool ns = true) : f(fake), root(9), namespaces(ns) { begin(); }
  void begin() { made.emplace_back(new M(9)); open.push_back(made.back().get()); }
  M &top() { return *open.back(); }
  void start(const S &prefix, const S &local, const S &uri, bool attr) {
    SAX::AttributesImpl<S> a;
    S q = prefix.empty() ? local : prefix + ":" + local;
    std::unique_ptr<M> m(new M(1, q));
    m->uri = namespaces ? uri : S();
    if (attr) {
      S v = one(), w = one();
      a.addAttribute("", namespaces ? "a" : "", "a", "CDATA", v);
      m->atts["a"] = v; m->uris["a"] = "";
      a.addAttribute(namespaces ? "v" : "", namespaces ? "b" : "", "q:b", "CDATA", w);
      m->atts["q:b"] = w; m->uris["q:b"] = namespaces ? "v" : "";
    }
    f.c->startElement(m->uri, namespaces ? local : S(), q, a);
    open.push_back(m.get());
    made.push_back(std::move(m));
  }
  void end() {
    M m = top();
    open.pop_back(); made.pop_back();
    f.c->endElement(m.uri, namespaces ? m.name.substr(m.name.find(':') + 1) : S(), m.name);
    add(top(), m, false);
  }
  void chars(const S &s, bool merge = true) { f.c->characters(s); add(top(), M(3, "", s), merge); }
  void event(unsigned k) {
    S v;
    switch (k) {
      case 0: start("", "e", "", false); break;
      case 1: start("p", "e", "u", true); break;
      case 2: if (open.size() > 2) end(); else start("", "g", "u", false); break;
      case 3: chars(one()); break;
      case 4: v = one(); f.c->ignorableWhitespace(v); add(top(), M(3, "", v), true); break;
      case 5: v = one(); f.lex->startCDATA(); f.c->characters(v); f.c->characters("]"); f.lex->endCDATA(); add(top(), M(4, "", v + "]"), false); break;
      case 6: v = one(); f.lex->comment(v); add(top(), M(8, "", v), false); break;
      case 7: v = S(1, symx_in("yz ?&", 5)); f.c->processingInstruction("t", v); add(top(), M(7, "t", v), false); break;
      default: f.c->skippedEntity("s"); add(top(), M(5, "s"), false); break;
    }
  }
};
static bool go(Parser &p) { SAX::InputSource<S> is("doc"); return p.parse(is); }
static void plain(Parser &p) { // the parser is none the worse
  M want(9);
  events = [&](Fake &f) { f.c->startDocument(); Teller t(f); t.start("", "r", "", false); t.chars("t"); f.lex->startEntity("a"); f.lex->endEntity("a"); t.chars("u"); t.end(); f.c->endDocument(); want = t.top(); };
  symx_check(go(p), "the parser can be used again");
  DOM::Document<S> d = p.getDocument();
  symx_check(d != 0 && d.getDoctype() == 0, "nothing of an earlier document is left");
  if (d == 0) return;
  N r = d.getDocumentElement(), c = r == 0 ? N() : r.getFirstChild();
  symx_check(r != 0 && r.getNodeName() == "r" && c != 0 && c.getNodeValue() == "t" && c.getNextSibling() != 0 && r.getLastChild().getNodeValue() == "u" && r.getChildNodes().getLength() == 3 && c.getNextSibling().getNodeType() == 5, "the next document is its own");
}
// ---- content
static void content() {
  Parser p;
  Errors e;
  Resolver r;
  bool listening = symx_pick(2);
  if (listening) { p.setErrorHandler(e); p.setEntityResolver(r); }
  SAX::FeatureNames<S> fn;
  bool ns = symx_pick(2);
  features.clear();
  p.setFeature(fn.namespaces, ns);
  p.setFeature("unknown", true);
  p.setFeature("other", ns);
  symx_check(p.getFeature(fn.namespaces) == ns, "features are remembered");
  unsigned n = symx_param("N", 3), fault = symx_pick(5), when = fault ? symx_pick(n + 2) : 0; // 1 warning, 2 error, 3 fatal, 4 impossible name
  M want(9);
  unsigned said = 0;
  events = [&](Fake &f) {
    symx_check(features[fn.namespaces] == ns && features["other"] == ns && features.count(fn.validation) && !features[fn.validation], "features are passed to the reader");
    symx_check(!listening || (f.er && f.er->resolveEntity("p", "s").getSystemId() == "ps!"), "the entity resolver is passed to the reader");
    Errors::SAXParseExceptionT x("x");
    auto trouble = [&]() { if (fault == 1) f.err->warning(x); else if (fault == 2) f.err->error(x); else if (fault == 3) f.err->fatalError(x); else if (fault == 4) { SAX::AttributesImpl<S> a; f.c->startElement("", "\x01", "\x01", a); f.c->endElement("", "\x01", "\x01"); } };
    f.c->startDocument();
    Teller t(f, ns);
    bool around = symx_pick(2);
    if (around) { f.lex->comment("1"); add(t.top(), M(8, "", "1"), false); f.c->processingInstruction("t", "2"); add(t.top(), M(7, "t", "2"), false); }
    if (fault && when == 0) trouble();
    t.start("", "r", "", symx_pick(2));
    for (unsigned i = 0; i < n; ++i) {
      if (fault && when == i + 1) trouble();
      t.event(symx_pick(9));
    }
    while (t.open.size() > 1) t.end();
    if (around) { f.c->processingInstruction("t", "3"); add(t.top(), M(7, "t", "3"), false); f.lex->comment("4"); add(t.top(), M(8, "", "4"), false); }
    if (fault && when == n + 1) trouble();
    f.c->endDocument();
    want = t.top();
  };
  bool ok = false, threw = false;
  try { ok = go(p); } catch (...) { threw = true; }
  symx_check(!threw, "nothing escapes from a parse");
  bool bad = fault > 1;
  // an element cannot follow the root: whether refused there or not, it is refused
  symx_check(ok == !bad, "a parse succeeds when there are no errors");
  DOM::Document<S> d = p.getDocument();
  symx_check((d != 0) == ok, "there is a document if the parse succeeded");
  if (listening) symx_check(e.warnings == (fault == 1) && e.errors == (fault == 2) && e.fatals == (fault > 2), "trouble is reported, once");
  if (d != 0) { same(d, want); symx_reach("mirrored"); } else symx_reach("refused");
  symx_check(readers == 0, "readers do not outlive the parse");
  plain(p);
  if (d != 0) same(d, want); // and the document belongs to whoever asked for it
  (void)said;
}
// ---- declarations
struct Declared { S kind, name, pub, sys, other; };
static void declarations() {
  Parser p;
  std::vector<Declared> ents, nots;
  std::map<S, S> defaults;
  bool id = false;
  S pub = one(), sys = one(), val = one();
  M want(9);
  events = [&](Fake &f) {
    f.c->startDocument();
    Teller t(f);
    f.lex->startDTD("r", pub, sys);
    unsigned n = symx_param("D", 2);
    for (unsigned i = 0; i < n; ++i) {
      S name(1, "xyzw"[i]);
      Declared d; d.name = name;
      switch (symx_pick(10)) {
        case 0: f.decl->internalEntityDecl(name, val); d.kind = "internal"; d.other = val; if (val != "<" && val != "&") ents.push_back(d); else { d.other = ""; ents.push_back(d); } break;
        case 1: f.decl->externalEntityDecl(name, pub, sys); d.kind = "external"; d.pub = pub; d.sys = sys; ents.push_back(d); break;
        case 2: f.dtd->unparsedEntityDecl(name, pub, sys, "nt"); d.kind = "unparsed"; d.pub = pub; d.sys = sys; d.other = "nt"; ents.push_back(d); break;
        case 3: f.dtd->notationDecl(name, pub, sys); d.pub = pub; d.sys = sys; nots.push_back(d); break;
        case 4: f.decl->internalEntityDecl("%" + name, val); f.decl->externalEntityDecl("%" + name + "x", pub, sys); break;
        case 5: f.lex->comment(val); f.c->processingInstruction("t", "d"); f.lex->startEntity("%w"); f.lex->comment("in"); f.c->skippedEntity("%v"); f.lex->endEntity("%w"); break;
        case 6: { unsigned m = symx_pick(4); static const char *const ms[] = {"", "#FIXED", "#IMPLIED", "#REQUIRED"}; S v = m < 2 && symx_pick(2) ? val : S(); f.decl->attributeDecl("r", name, "CDATA", ms[m], v); if (m < 2) defaults[name] = v; break; }
        case 7: f.decl->attributeDecl(symx_pick(2) ? "r" : "o", "i", "ID", "#IMPLIED", ""); if (!id) id = symx_replaying() || true; break;
        case 8: f.decl->elementDecl("r", "ANY"); break;
        default: f.lex->startEntity("[dtd]"); f.lex->comment("in"); f.lex->endEntity("[dtd]"); break;
      }
    }
    f.lex->endDTD();
    add(t.top(), M(10, "r"), false);
    // the reader supplies defaults
    SAX::AttributesImpl<S> a;
    M m(1, "r");
    for (std::map<S, S>::iterator i = defaults.begin(); i != defaults.end(); ++i) { a.addAttribute("", i->first, i->first, "CDATA", i->second); m.atts[i->first] = i->second; m.uris[i->first] = ""; }
    f.c->startElement("", "r", "r", a);
    f.c->characters("t"); add(m, M(3, "", "t"), true);
    f.c->endElement("", "r", "r");
    add(t.top(), m, false);
    f.c->endDocument();
    want = t.top();
  };
  symx_check(go(p), "a document with declarations is built");
  DOM::Document<S> d = p.getDocument();
  if (d == 0) return;
  same(d, want);
  DOM::DocumentType<S> dt = d.getDoctype();
  symx_check(dt != 0 && dt.getName() == "r" && dt.getPublicId() == pub && dt.getSystemId() == sys, "the document type is as declared");
  if (dt == 0) return;
  DOM::NamedNodeMap<S> em = dt.getEntities(), nm = dt.getNotations();
  symx_check(em.getLength() == ents.size() && nm.getLength() == nots.size(), "entities and notations are those declared");
  for (size_t i = 0; i < ents.size(); ++i) {
    N n = em.getNamedItem(ents[i].name);
    symx_check(n != 0, "each entity declared is there");
    if (n == 0) continue;
    DOM::Entity<S> e(n);
    symx_check(e.getPublicId() == ents[i].pub && e.getSystemId() == ents[i].sys && e.getNotationName() == (ents[i].kind == "unparsed" ? ents[i].other : S()), "entities are as declared");
    if (ents[i].kind == "internal" && !ents[i].other.empty()) symx_check(n.getFirstChild() != 0 && n.getFirstChild().getNodeValue() == ents[i].other, "an entity that is text has that text");
  }
  for (size_t i = 0; i < nots.size(); ++i) {
    N n = nm.getNamedItem(nots[i].name);
    symx_check(n != 0, "each notation declared is there");
    if (n == 0) continue;
    DOM::Notation<S> e(n);
    symx_check(e.getPublicId() == nots[i].pub && e.getSystemId() == nots[i].sys, "notations are as declared");
  }
  // defaults come back
  DOM::Element<S> r = d.getDocumentElement();
  for (std::map<S, S>::iterator i = defaults.begin(); i != defaults.end(); ++i) {
    r.removeAttribute(i->first);
    symx_check(r.hasAttribute(i->first) && r.getAttribute(i->first) == i->second && !r.getAttributeNode(i->first).getSpecified(), "an attribute removed takes its default");
    symx_reach(i->second.empty() ? "empty default" : "default");
  }
  r.setAttribute("j", "k");
  r.removeAttribute("j");
  symx_check(r.getAttributes().getLength() == defaults.size() && r.getAttributes().getNamedItem("i") == 0, "other attributes have no default");
  symx_reach("declared");
}
// ---- ids
static void ids() {
  Parser p;
  bool root = symx_pick(2), kid = symx_pick(2);
  S a = one(), b = one(), want = one();
  symx_assume(a != b);
  events = [&](Fake &f) {
    f.c->startDocument();
    f.lex->startDTD("r", "", "");
    f.decl->attributeDecl("r", "i", root ? "ID" : "CDATA", "#IMPLIED", "");
    if (kid) f.decl->attributeDecl("k", "i", "ID", "#IMPLIED", "");
    f.lex->endDTD();
    SAX::AttributesImpl<S> x, y;
    x.addAttribute("", "i", "i", "CDATA", a);
    y.addAttribute("", "i", "i", "CDATA", b);
    f.c->startElement("", "r", "r", x);
    f.c->startElement("", "k", "k", y);
    f.c->endElement("", "k", "k");
    f.c->endElement("", "r", "r");
    f.c->endDocument();
  };
  symx_check(go(p), "a document with ids is built");
  DOM::Document<S> d = p.getDocument();
  if (d == 0) return;
  N r = d.getDocumentElement(), found = d.getElementById(want);
  symx_check(found == (root && want == a ? r : kid && want == b ? r.getFirstChild() : N()), "elements are found by the ids they were declared to have");
  symx_reach("ids");
}
// ---- entities
static void entities() {
  Parser p;
  S v = one(), cv = one();
  symx_assume(v != "<" && v != "&");
  unsigned markup = symx_pick(5), inside = symx_pick(6); // what is in b, and in c, which is outside
  M want(9);
  events = [&](Fake &f) {
    f.c->startDocument();
    Teller t(f);
    static const char *const values[] = {"<i/>k", "[&a;]", "&#60;", "<i>[&a;]</i>", ""};
    f.lex->startDTD("r", "", "");
    f.decl->internalEntityDecl("a", v);
    f.decl->internalEntityDecl(markup == 4 ? "z" : "b", values[markup]);
    f.decl->externalEntityDecl(inside == 0 ? "z" : "c", "", "c.xml");
    f.lex->endDTD();
    add(t.top(), M(10, "r"), false);
    std::function<void(char)> refer = [&](char e) {
      if (e == 'b' && markup == 4) e = 'y';
      if (e == 'c' && inside == 0) e = 'z';
      S name(1, e == 'y' ? 'z' : e);
      f.lex->startEntity(name);
      if (e == 'a') t.chars(v, false);
      if (e == 'b') switch (markup) {
        case 0: t.start("", "i", "", false); t.end(); t.chars("k"); break;
        case 1: t.chars("["); refer('a'); t.chars("]"); break;
        case 2: t.chars("<"); break;
        default: t.start("", "i", "", false); t.chars("["); refer('a'); t.chars("]"); t.end();
      }
      if (e == 'c') switch (inside) {
        case 1: t.chars("x"); t.chars(cv); break;
        case 2: t.start("p", "e", "u", false); t.chars(cv); t.end(); break;
        case 3: refer('a'); refer('b'); break;
        case 4: f.lex->startCDATA(); f.c->characters(cv); f.lex->endCDATA(); add(t.top(), M(4, "", cv), false); f.lex->comment(cv); add(t.top(), M(8, "", cv), false); f.c->processingInstruction("t", "d"); add(t.top(), M(7, "t", "d"), false); break;
        default: t.start("", "e", "", false); refer('b'); t.chars("x"); t.end(); refer('a');
      }
      f.lex->endEntity(name);
    };
    t.start("", "r", "", false);
    unsigned n = symx_param("E", 2);
    for (unsigned i = 0; i < n; ++i) {
      unsigned k = symx_pick(5);
      if (k < 3) {
        refer("abc"[k]);
      } else if (k == 3) t.chars("m");
      else { t.start("", "n", "", false); }
    }
    while (t.open.size() > 1) t.end();
    f.c->endDocument();
    want = t.top();
  };
  symx_check(go(p), "a document with entities is built");
  DOM::Document<S> d = p.getDocument();
  if (d == 0) return;
  same(d, want, true);
  DOM::NamedNodeMap<S> em = d.getDoctype().getEntities();
  N a = em.getNamedItem("a"), b = em.getNamedItem("b");
  symx_check(a != 0 && a.getFirstChild() != 0 && a.getFirstChild().getNodeValue() == v, "the entity nodes hold their text");
  if (b != 0 && markup == 0) symx_check(b.getFirstChild() != 0 && b.getFirstChild().getNodeName() == "i" && b.getLastChild().getNodeValue() == "k", "the entity nodes hold their markup");
  symx_reach("entities");
}
void symx_main() {
  { Fake warm; SAX2DOM::Parser<S> q; (void)q; }
  try { throw X(X::NOT_FOUND_ERR); } catch (const X &) {}
  script = [](XML_Parser p, const char *b, int n, int final) { scanned.append(b, n); if (!final) return 1; S t; t.swap(scanned); return scan(p, t); };
  switch (symx_pick(4)) {
    case 0: content(); break;
    case 1: declarations(); break;
    case 2: ids(); break;
    default: entities();
  }
  symx_check(parsers == 0, "no reader outlives its use");
  events = nullptr;
  script = Script();
}
