// C12: the expat wrapper, driven by a stand-in for the expat library whose callbacks, failures and
// entity references are chosen symbolically.
#include <iostream>
#include <sstream>
#include <vector>
#include <functional>
#include <algorithm>
#include <cstring>
#include <memory>
#include "symx.h"
#include <expat.h>
#include <SAX/XMLReader.hpp>
#include <../src/SAX/wrappers/saxexpat.cpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
using namespace Arabica;
typedef std::string S;
#include "expatstub.h"

// ---- what the application sees
typedef std::vector<S> Log;
static bool quiet; // undeclared prefixes may or may not be reported again with the end tag
struct Rec : SAX::DefaultHandler<S> {
  typedef SAX::DefaultHandler<S> B;
  Log log;
  int bomb;
  Rec() : bomb(-1) {}
  void add(const S &k, const S &a = "", const S &b = "", const S &c = "", const S &d = "", const S &e = "") { log.push_back(k + "|" + a + "|" + b + "|" + c + "|" + d + "|" + e); if ((int)log.size() == bomb) { bomb = -1; throw 42; } }
  void startDocument() { add("startDocument"); }
  void endDocument() { add("endDocument"); }
  void startPrefixMapping(const S &p, const S &u) { add("startPrefixMapping", p, u); }
  void endPrefixMapping(const S &p) { add("endPrefixMapping", p); }
  void startElement(const S &u, const S &l, const S &q, const B::AttributesT &a) { // attributes in any order
    std::vector<S> s;
    for (int i = 0; i < a.getLength(); ++i) s.push_back("{" + a.getURI(i) + "}" + a.getLocalName(i) + " " + a.getQName(i) + " " + a.getType(i) + "=" + a.getValue(i));
    std::sort(s.begin(), s.end());
    S all;
    for (size_t i = 0; i < s.size(); ++i) all += s[i] + ";";
    add("start", u, l, q, all);
  }
  void endElement(const S &u, const S &l, const S &q) { add("end", u, l, q); }
  void characters(const S &s) { add("characters", s); }
  void processingInstruction(const S &t, const S &d) { add("pi", t, d); }
  void skippedEntity(const S &n) { add("skipped", n); }
  void startDTD(const S &n, const S &p, const S &s) { add("startDTD", n, p, s); }
  void endDTD() { add("endDTD"); }
  void startEntity(const S &n) { add("startEntity", n); }
  void endEntity(const S &n) { add("endEntity", n); }
  void startCDATA() { add("startCDATA"); }
  void endCDATA() { add("endCDATA"); }
  void comment(const S &t) { add("comment", t); }
  void notationDecl(const S &n, const S &p, const S &s) { add("notation", n, p, s); }
  void unparsedEntityDecl(const S &n, const S &p, const S &s, const S &o) { add("unparsed", n, p, s, o); }
  void elementDecl(const S &n, const S &m) { add("element", n, m); }
  void attributeDecl(const S &e, const S &a, const S &t, const S &d, const S &v) { add("attlist", e, a, t, d, v); }
  void internalEntityDecl(const S &n, const S &v) { add("internal", n, v); }
  void externalEntityDecl(const S &n, const S &p, const S &s) { add("external", n, p, s); }
  void error(const B::SAXParseExceptionT &) { if (!quiet) add("error"); }
  void fatalError(const B::SAXParseExceptionT &e) { S m = e.what(); size_t n = m.rfind('\n'); add("fatal", n == S::npos ? m : m.substr(n + 1)); }
};
typedef SAX::expat_wrapper<S> Wrapper;
static void listen(Wrapper &w, Rec &r) { w.setContentHandler(r); w.setDTDHandler(r); w.setLexicalHandler(r); w.setDeclHandler(r); w.setErrorHandler(r); }
static void same(const Log &got, const Log &want, const char *id) {
  for (size_t i = 0; i < got.size() || i < want.size(); ++i) symx_note("got %s want %s", i < got.size() ? got[i].c_str() : "-", i < want.size() ? want[i].c_str() : "-");
  symx_check(got.size() == want.size(), id);
  for (size_t i = 0; i < want.size(); ++i) symx_check(got[i] == want[i], id);
}
static void run(Wrapper &w, const S &text = "x") { std::istringstream in(text); SAX::InputSource<S> is(in); w.parse(is); }
static S one() { return S(1, symx_char()); }
static Script at_end(std::function<void(XML_Parser)> f) { return [f](XML_Parser p, const char *, int, int final) { if (final) f(p); return 1; }; }

// ---- elements, attributes and namespaces
struct Scope { S name, uri, local; std::vector<std::pair<S, S> > decls; };
static void elements() {
  Wrapper w;
  Rec got, want;
  listen(w, got);
  SAX::FeatureNames<S> fn;
  unsigned mode = symx_pick(3); // 0 default, 1 no xmlns attributes, 2 no namespaces
  if (mode == 1) w.setFeature(fn.namespace_prefixes, false);
  if (mode == 2) w.setFeature(fn.namespaces, false);
  std::vector<Scope> open;
  script = at_end([&](XML_Parser p) {
    auto uri = [&](const S &prefix, bool &known) { for (size_t i = open.size(); i-- > 0;) for (size_t j = open[i].decls.size(); j-- > 0;) if (open[i].decls[j].first == prefix) { known = true; return open[i].decls[j].second; } known = false; return S(); };
    auto resolve = [&](const S &q, bool attr, S &local) { size_t c = q.find(':'); bool known; local = c == S::npos ? q : q.substr(c + 1); if (c == S::npos && attr) return S(); S u = uri(c == S::npos ? S() : q.substr(0, c), known); if (c != S::npos && !known) want.add("error"); return u; };
    unsigned n = symx_param("N", 3);
    for (unsigned i = 0; i <= n || !open.empty(); ++i) {
      unsigned k = i == 0 ? 0 : i > n ? 1 : open.empty() ? 3 : symx_pick(3);
      if (k == 3) break;
      if (k == 2) { S t = one(); p->chars(p->user, t.data(), 1); want.characters(t); continue; }
      if (k == 1) {
        Scope s = open.back();
        quiet = true;
        p->end(p->user, s.name.c_str());
        quiet = false;
        want.endElement(s.uri, s.local, s.name);
        if (mode != 2) { std::vector<S> ps; for (size_t j = 0; j < s.decls.size(); ++j) ps.push_back(s.decls[j].first); std::sort(ps.begin(), ps.end()); for (size_t j = 0; j < ps.size(); ++j) want.endPrefixMapping(ps[j]); }
        open.pop_back();
        continue;
      }
      Scope s;
      unsigned na = symx_pick(symx_param("A", 2) + (i == 0));
      std::vector<S> store;
      for (unsigned a = 0; a < na; ++a) {
        static const char *const names[] = {"xmlns", "xmlns:a", "a:x", "x", "xmlnsy", "xmlns-z"};
        S q = names[symx_pick(i ? 4 : 6)];
        if (q == "xmlns:a") q[6] = symx_in("ab", 2);
        if (q == "a:x") q[0] = symx_in("ab", 2);
        bool dup = false;
        for (size_t j = 0; j < store.size(); j += 2) dup |= store[j] == q;
        if (dup) return; // expat refuses these
        S v = one();
        if (v[0] == 0) return;
        store.push_back(q);
        store.push_back(v);
      }
      s.name = i < 2 && symx_pick(2) ? "a:n" : "n";
      S atts;
      std::vector<S> l;
      open.push_back(s);
      for (size_t j = 0; j < store.size(); j += 2) if (mode != 2 && (store[j] == "xmlns" || store[j].compare(0, 6, "xmlns:") == 0)) {
        S pre = store[j].size() == 5 ? S() : store[j].substr(6);
        open.back().decls.push_back(std::make_pair(pre, store[j + 1]));
        want.startPrefixMapping(pre, store[j + 1]);
        if (mode == 0) l.push_back("{} " + store[j] + " CDATA=" + store[j + 1]);
      }
      for (size_t j = 0; j < store.size(); j += 2) if (mode == 2) l.push_back("{} " + store[j] + " CDATA=" + store[j + 1]);
        else if (!(store[j] == "xmlns" || store[j].compare(0, 6, "xmlns:") == 0)) { S local, u = resolve(store[j], true, local); l.push_back("{" + u + "}" + local + " " + store[j] + " CDATA=" + store[j + 1]); }
      std::sort(l.begin(), l.end());
      for (size_t j = 0; j < l.size(); ++j) atts += l[j] + ";";
      if (mode != 2) open.back().uri = resolve(s.name, false, open.back().local);
      want.add("start", open.back().uri, open.back().local, s.name, atts);
      std::vector<const char *> raw;
      for (size_t j = 0; j < store.size(); ++j) raw.push_back(store[j].c_str());
      raw.push_back(0);
      p->start(p->user, s.name.c_str(), raw.data());
    }
  });
  want.startDocument();
  run(w);
  if (!open.empty()) return;
  want.endDocument();
  same(got.log, want.log, "elements, attributes and prefix mappings are those of the document");
  symx_reach("elements");
}
// ---- content models
static unsigned nests; // groups still allowed inside
static void model(XML_Content &c, S &text, unsigned depth, bool child, std::vector<std::unique_ptr<XML_Content[]> > &pool) {
  static const char *const quants[] = {"", "?", "*", "+"};
  memset(&c, 0, sizeof c);
  unsigned t = child ? (depth && nests ? symx_pick(3) : 0) : 1 + symx_pick(5);
  if (child && t == 0) { c.type = XML_CTYPE_NAME; c.name = const_cast<char *>("n"); unsigned q = depth ? symx_pick(4) : symx_pick(2) * 2; c.quant = (enum XML_Content_Quant)q; text += S("n") + quants[q]; return; }
  if (!child && t > 2) {
    if (t == 3) { c.type = XML_CTYPE_EMPTY; text = "EMPTY"; }
    else if (t == 4) { c.type = XML_CTYPE_ANY; text = "ANY"; }
    else {
      c.type = XML_CTYPE_MIXED;
      c.numchildren = symx_pick(3);
      if (c.numchildren || symx_pick(2)) c.quant = c.numchildren ? XML_CQUANT_REP : XML_CQUANT_NONE;
      pool.emplace_back(new XML_Content[2]());
      c.children = pool.back().get();
      text = "(#PCDATA";
      for (unsigned i = 0; i < c.numchildren; ++i) { c.children[i].type = XML_CTYPE_NAME; c.children[i].name = const_cast<char *>("m"); text += "|m"; }
      text += c.numchildren ? ")*" : ")";
    }
    return;
  }
  if (child) --nests;
  c.type = t == 1 ? XML_CTYPE_CHOICE : XML_CTYPE_SEQ;
  c.numchildren = 1 + symx_pick(2);
  unsigned q = symx_pick(4);
  c.quant = (enum XML_Content_Quant)q;
  pool.emplace_back(new XML_Content[3]());
  c.children = pool.back().get();
  text += "(";
  for (unsigned i = 0; i < c.numchildren; ++i) { if (i) text += t == 1 ? "|" : ","; model(c.children[i], text, depth - 1, true, pool); }
  text += S(")") + quants[q];
}
// ---- everything else expat reports
static void declarations() {
  Wrapper w;
  Rec got, want;
  listen(w, got);
  std::vector<std::unique_ptr<XML_Content[]> > pool;
  S v = one(), none;
  if (v[0] == 0) return;
  const char *c = v.c_str();
  script = at_end([&](XML_Parser p) {
    switch (symx_pick(11)) {
      case 0: { bool pub = symx_pick(2), sys = symx_pick(2); p->sdt(p->user, "n", sys ? c : 0, pub ? "p" : 0, 1); p->edt(p->user); want.startDTD("n", pub ? "p" : "", sys ? v : none); want.endDTD(); break; }
      case 1: { bool param = symx_pick(2); unsigned len = symx_pick(3); S t = v + "z"; p->entity(p->user, "e", param, t.c_str(), len, 0, 0, 0, 0); want.internalEntityDecl(param ? "%e" : "e", t.substr(0, len)); break; }
      case 2: { bool param = symx_pick(2), pub = symx_pick(2); p->entity(p->user, "e", param, 0, 0, 0, c, pub ? "p" : 0, 0); want.externalEntityDecl(param ? "%e" : "e", pub ? "p" : "", v); break; }
      case 3: { bool pub = symx_pick(2); p->entity(p->user, "e", 0, 0, 0, 0, c, pub ? "p" : 0, "nt"); want.unparsedEntityDecl("e", pub ? "p" : "", v, "nt"); break; }
      case 4: { bool pub = symx_pick(2); p->notation(p->user, "n", 0, pub ? 0 : c, pub ? c : 0); want.notationDecl("n", pub ? v : none, pub ? none : v); break; }
      case 5: {
        unsigned k = symx_pick(4); static const char *const d[] = {"", "#FIXED", "#IMPLIED", "#REQUIRED"};
        p->attlist(p->user, "e", "a", "CDATA", k < 2 ? c : 0, k & 1); want.attributeDecl("e", "a", "CDATA", d[k], k < 2 ? v : none);
        S e(1, symx_in("ef", 2)), a(1, symx_in("ab", 2)); // only the first declaration counts
        p->attlist(p->user, e.c_str(), a.c_str(), "ID", 0, 1); if (e != "e" || a != "a") want.attributeDecl(e, a, "ID", "#REQUIRED", none);
        break;
      }
      case 6: { XML_Content m; S t; nests = symx_param("G", 1); model(m, t, 2, false, pool); p->element(p->user, c, &m); want.elementDecl(v, t); symx_reach("model"); break; }
      case 7: p->pi(p->user, "t", c); want.processingInstruction("t", v); break;
      case 8: p->comment(p->user, c); want.comment(v); break;
      case 9: p->scd(p->user); p->chars(p->user, c, 1); p->ecd(p->user); want.startCDATA(); want.characters(v); want.endCDATA(); break;
      default: p->skipped(p->user, c, 0); want.skippedEntity(v);
    }
  });
  want.startDocument();
  run(w);
  want.endDocument();
  same(got.log, want.log, "declarations and the rest are reported as declared");
  symx_reach("declarations");
}
// ---- delivery of the input, failures at any point, and reuse
struct Failing : std::streambuf { S s; explicit Failing(const S &t) : s(t) { setg(&s[0], &s[0], &s[0] + s.size()); } int_type underflow() { throw 1; } };
static void delivery() {
  Wrapper w;
  Rec got, want;
  listen(w, got);
  static const unsigned sizes[] = {0, 1, 10239, 10240, 10241, 20480, 20481};
  unsigned size = sizes[symx_pick(7)], fault = symx_pick(5), when = 1;
  S data(size, 'd'), seen;
  for (unsigned i = 0; i < size; ++i) data[i] = (char)('a' + i % 26);
  if (size) data[0] = symx_char(), data[size - 1] = symx_char();
  if (size > 10240) data[10239] = symx_char(), data[10240] = symx_char();
  unsigned calls = 0, finals = 0, total = size / 10240 + 1;
  if (fault == 1 || fault == 2) when = 1 + symx_pick(total);
  script = [&](XML_Parser p, const char *b, int n, int final) { ++calls; symx_check(finals == 0, "nothing follows the end of the input"); finals += final; if (fault == 1 && calls == when) return 0; seen.append(b, n); if (final) p->chars(p->user, "t", 1); return 1; };
  nobuffer = fault == 2 ? when : 0;
  want.startDocument();
  bool threw = false;
  if (fault == 4) got.bomb = 1 + symx_pick(3);
  try {
    if (fault == 3) { Failing f(data); std::istream in(&f); SAX::InputSource<S> is(in); w.parse(is); }
    else run(w, data);
  } catch (int) { threw = true; }
  symx_check(threw == (fault == 4), "exceptions from handlers reach the caller");
  if (fault == 0) {
    want.characters("t");
    symx_check(seen == data, "expat is given exactly the input");
    symx_check(finals == 1, "expat is told the end of the input");
    want.endDocument();
    same(got.log, want.log, "an uneventful parse reports the document");
    symx_reach("delivered");
  } else if (fault < 4) {
    symx_check(got.log.size() == 3 && got.log[1].compare(0, 6, "fatal|") == 0 && got.log[2] == "endDocument|||||", "a failure is reported once, and the document still ends");
    symx_check(fault == 1 ? calls == when : fault == 2 ? calls == when - 1 : true, "parsing stops at the failure");
    if (fault == 1) symx_check(got.log[1] == "fatal|syntax||||", "the failure is described by expat");
    symx_reach(fault == 3 ? "stream" : "fault");
  } else symx_reach("thrown");
  // and the wrapper parses the next document like a new one
  nobuffer = 0;
  Log before = got.log;
  got.log.clear(); want.log.clear();
  bool ok = true;
  try { w.setFeature(SAX::FeatureNames<S>().external_general, symx_pick(2)); } catch (...) { ok = false; }
  symx_check(ok, "features can be set between parses");
  script = at_end([](XML_Parser p) { const char *none[] = {0}; p->start(p->user, "a:n", none); p->end(p->user, "a:n"); });
  quiet = true;
  run(w);
  quiet = false;
  want.startDocument(); want.add("start", "", "n", "a:n"); want.endElement("", "n", "a:n"); want.endDocument();
  same(got.log, want.log, "the wrapper can be used again");
}
static void leftover() { // an exception inside nested declarations must not leave them in force
  Wrapper w;
  Rec got, want;
  listen(w, got);
  script = at_end([](XML_Parser p) { const char *ns[] = {"xmlns:a", "u", 0}, *none[] = {0}; p->start(p->user, "a:r", ns); p->start(p->user, "a:s", none); p->chars(p->user, "t", 1); p->end(p->user, "a:s"); p->end(p->user, "a:r"); });
  got.bomb = 2 + symx_pick(9);
  bool threw = false;
  try { run(w); } catch (int) { threw = true; }
  got.log.clear();
  got.bomb = -1;
  quiet = true;
  script = at_end([](XML_Parser p) { const char *none[] = {0}; p->start(p->user, "a:n", none); p->end(p->user, "a:n"); });
  run(w);
  quiet = false;
  want.startDocument(); want.add("start", "", "n", "a:n"); want.endElement("", "n", "a:n"); want.endDocument();
  same(got.log, want.log, "nothing of an abandoned parse remains");
  if (threw) symx_reach("abandoned");
}
// ---- external entities
struct Resolver : SAX::EntityResolver<S, default_string_adaptor<S> > {
  S pub, sys; unsigned how, called;
  std::istringstream in;
  SAX::InputSource<S> resolveEntity(const S &p, const S &s) { pub = p; sys = s; ++called; SAX::InputSource<S> is; if (how == 0) is.setByteStream(in); else if (how == 1) is.setByteStream(std::unique_ptr<std::istream>(new std::istringstream("inner"))); else is.setSystemId("/nonexistent/file"); return is; }
};
static void external() {
  Wrapper w;
  Rec got, want;
  listen(w, got);
  Resolver r;
  r.how = symx_pick(3);
  r.called = 0;
  r.in.str("inner");
  w.setEntityResolver(r);
  bool resolving = symx_pick(2), pub = symx_pick(2), bad = symx_pick(2), nested = resolving && r.how == 1 && !bad && symx_pick(2);
  w.setFeature(SAX::FeatureNames<S>().external_general, resolving);
  // two entities, a parameter entity and the external subset; any may share a system identifier
  S sys[4] = {"s", "s", "s", "s"};
  static const char *const names[] = {"first", "second", "%third", "[dtd]"};
  for (unsigned i = 0; i < 4; ++i) sys[i][0] = symx_in("st", 2);
  unsigned which = symx_pick(4);
  if (which > 1) symx_assume(sys[2] != sys[3]); // there is no telling these apart
  if (nested && which > 1) nested = false;
  if (nested && symx_pick(2)) got.bomb = 7 + symx_pick(4);
  bool bombed = got.bomb >= 0;
  S context = S("xml=x\f") + names[which];
  if (symx_pick(2)) context = S(names[which]) + "\fother";
  S seen;
  int result = -1, inside = -1;
  unsigned depth = 0;
  inner = [&](XML_Parser p, const char *b, int n, int final) {
    seen.append(b, n);
    if (bad) return 0;
    if (!final) return 1;
    p->chars(p->user, "i", 1);
    if (nested && depth++ == 0) {
      inside = p->external(p, which == 0 ? "second\ffirst" : "second\ffirst\fxml=x", 0, sys[!which].c_str(), 0);
      p->chars(p->user, "j", 1);
    }
    return 1;
  };
  script = [&](XML_Parser p, const char *, int, int final) {
    if (!final) return 1;
    p->sdt(p->user, "n", sys[3].c_str(), 0, 1);
    p->entity(p->user, "third", 1, 0, 0, 0, sys[2].c_str(), 0, 0);
    p->entity(p->user, "first", 0, 0, 0, 0, sys[0].c_str(), pub ? "p1" : 0, 0);
    p->entity(p->user, "second", 0, 0, 0, 0, sys[1].c_str(), 0, 0);
    result = p->external(p, which < 2 ? context.c_str() : 0, 0, sys[which].c_str(), which == 0 && pub ? "p1" : 0);
    if (!result) { p->error = XML_ERROR_EXTERNAL_ENTITY_HANDLING; return 0; }
    return 1;
  };
  bool ok = true, threw = false;
  try { run(w); } catch (int) { threw = true; } catch (...) { ok = false; }
  inner = Script();
  symx_check(ok, "no exception escapes through expat");
  if (!ok) return;
  symx_check(threw == bombed, "exceptions from handlers reach the caller");
  if (threw) { symx_check(parsers == 1, "a parser for an entity is freed whatever happens"); symx_reach("unwound"); return; }
  S name = names[which];
  want.startDocument();
  want.startDTD("n", "", sys[3]);
  want.externalEntityDecl("%third", "", sys[2]);
  want.externalEntityDecl("first", pub ? "p1" : "", sys[0]);
  want.externalEntityDecl("second", "", sys[1]);
  bool fails = resolving && (bad || r.how == 2);
  if (!resolving) want.skippedEntity(name);
  else {
    want.startEntity(name);
    if (r.how == 2) want.add("fatal", "Could not resolve XML document");
    else if (bad) want.add("fatal", "syntax");
    else want.characters("i");
    if (nested) { want.startEntity(names[!which]); want.characters("i"); want.endEntity(names[!which]); want.characters("j"); symx_check(inside == 1, "expat is told an inner entity was parsed"); }
    want.endEntity(name);
    if (!nested) symx_check(r.called == 1 && r.sys == sys[which] && r.pub == (which == 0 && pub ? "p1" : ""), "the resolver is asked for the entity");
    if (r.how < 2) symx_check(bad || seen == (nested ? "innerinner" : "inner"), "the resolved stream is parsed");
  }
  if (fails) want.add("fatal", "entity");
  want.endDocument();
  symx_check(result == (fails ? 0 : 1), "expat is told whether the entity was parsed");
  same(got.log, want.log, "external entities are skipped, or bracketed and parsed");
  symx_reach(resolving ? nested ? "nested" : "resolved" : "skipped");
}
void symx_main() {
  long live = 0;
  (void)live;
  switch (symx_pick(5)) {
    case 0: elements(); break;
    case 1: declarations(); break;
    case 2: delivery(); break;
    case 3: leftover(); break;
    default: external();
  }
  script = Script();
  symx_check(parsers == 0, "every expat parser is freed");
}
