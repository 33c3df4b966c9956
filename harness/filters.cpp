// C11: every SAX filter against the transformation it documents, for arbitrary event sequences.
#include <iostream>
#include <sstream>
#include <vector>
#include "symx.h"
#include <SAX/SAXParseException.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/filter/TextOnly.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/filter/Writer.hpp>
using namespace Arabica;
typedef std::string S;
typedef std::vector<S> Log;
typedef SAX::XMLFilterImpl<S, default_string_adaptor<S> > Filter;
typedef SAX::AttributesImpl<S> Atts;

struct Loc : SAX::Locator<S, default_string_adaptor<S> > { S sys; S getPublicId() const { return ""; } S getSystemId() const { return sys; } size_t getLineNumber() const { return 1; } size_t getColumnNumber() const { return 1; } };
struct Probe { virtual S ask() const { return ""; } virtual ~Probe() {} };
struct Rec : SAX::DefaultHandler<S> {
  typedef SAX::DefaultHandler<S> B;
  Log log;
  const Probe *probe;
  Rec() : probe(0) {}
  void add(const S &k, const S &a = "", const S &b = "", const S &c = "", const S &d = "", const S &e = "") { log.push_back(k + "|" + a + "|" + b + "|" + c + "|" + d + "|" + e + (probe ? "@" + probe->ask() : "")); }
  void startDocument() { add("startDocument"); }
  void endDocument() { add("endDocument"); }
  void setDocumentLocator(const B::LocatorT &l) { add("locator", l.getSystemId()); }
  void startPrefixMapping(const S &p, const S &u) { const Probe *q = probe; probe = 0; add("startPrefixMapping", p, u); probe = q; }
  void endPrefixMapping(const S &p) { const Probe *q = probe; probe = 0; add("endPrefixMapping", p); probe = q; }
  void startElement(const S &u, const S &l, const S &q, const B::AttributesT &a) { add("start", u, l, q, a.getLength() ? a.getQName(0) + "=" + a.getValue(0) : S()); }
  void endElement(const S &u, const S &l, const S &q) { add("end", u, l, q); }
  void characters(const S &s) { add("characters", s); }
  void ignorableWhitespace(const S &s) { add("ignorable", s); }
  void processingInstruction(const S &t, const S &d) { add("pi", t, d); }
  void skippedEntity(const S &n) { add("skipped", n); }
  void startDTD(const S &n, const S &p, const S &s) { add("startDTD", n, p, s); }
  void endDTD() { add("endDTD"); }
  void startEntity(const S &n) { add("startEntity", n); }
  void endEntity(const S &n) { add("endEntity", n); }
  void startCDATA() { add("startCDATA"); }
  void endCDATA() { add("endCDATA"); }
  void comment(const S &t) { add("comment", t); }
  void notationDecl(const S &n, const S &p, const S &s) { add("notation", n, p, s); }
  void unparsedEntityDecl(const S &n, const S &p, const S &s, const S &o) { add("unparsed", n, p, s, o); }
  void elementDecl(const S &n, const S &m) { add("element", n, m); }
  void attributeDecl(const S &e, const S &a, const S &t, const S &d, const S &v) { add("attlist", e, a, t, d, v); }
  void internalEntityDecl(const S &n, const S &v) { add("internal", n, v); }
  void externalEntityDecl(const S &n, const S &p, const S &s) { add("external", n, p, s); }
  void warning(const B::SAXParseExceptionT &e) { add("warning", e.what()); }
  void error(const B::SAXParseExceptionT &e) { add("error", e.what()); }
  void fatalError(const B::SAXParseExceptionT &e) { add("fatal", e.what()); }
};
static void listen(Filter &f, Rec &r) { f.setContentHandler(r); f.setDTDHandler(r); f.setLexicalHandler(r); f.setDeclHandler(r); f.setErrorHandler(r); }
static void same(const Log &got, const Log &want, const char *id) {
  for (size_t i = 0; i < got.size() || i < want.size(); ++i) symx_note("got %s want %s", i < got.size() ? got[i].c_str() : "-", i < want.size() ? want[i].c_str() : "-");
  symx_check(got.size() == want.size(), id);
  for (size_t i = 0; i < want.size(); ++i) symx_check(got[i] == want[i], id);
}
static S one() { return S(1, symx_char()); }
static S data(unsigned n) { S s; n = symx_pick(n + 1); while (n--) s += symx_char(); return s; }

// send one event to a filter and to a plain recorder, which gives its log entry
template <class F> static void each(unsigned k, F &f, const S &s) {
  Atts a;
  switch (k) {
    case 0: f.startDocument(); break;
    case 1: f.endDocument(); break;
    case 2: f.startPrefixMapping("p", s); break;
    case 3: f.endPrefixMapping("p"); break;
    case 4: a.addAttribute("u", "x", "p:x", "CDATA", s); f.startElement("u", "n", "p:n", a); break;
    case 5: f.endElement("u", "n", s); break;
    case 6: f.characters(s); break;
    case 7: f.ignorableWhitespace(s); break;
    case 8: f.processingInstruction("t", s); break;
    case 9: f.skippedEntity(s); break;
    case 10: f.startDTD("n", "p", s); break;
    case 11: f.endDTD(); break;
    case 12: f.startEntity(s); break;
    case 13: f.endEntity(s); break;
    case 14: f.startCDATA(); break;
    case 15: f.endCDATA(); break;
    case 16: f.comment(s); break;
    case 17: f.notationDecl("n", "p", s); break;
    case 18: f.unparsedEntityDecl("n", "p", "s", s); break;
    case 19: f.elementDecl("n", s); break;
    case 20: f.attributeDecl("e", "a", "t", "d", s); break;
    case 21: f.internalEntityDecl("n", s); break;
    case 22: f.externalEntityDecl("n", "p", s); break;
    case 23: { Loc l; l.sys = s; f.setDocumentLocator(l); break; }
    case 24: { SAX::SAXParseException<S> e("w", "p", "s", 1, 2); f.warning(e); break; }
    case 25: { SAX::SAXParseException<S> e("e", "p", "s", 1, 2); f.error(e); break; }
    default: { SAX::SAXParseException<S> e("f", "p", "s", 1, 2); f.fatalError(e); }
  }
}
enum { ALL = 27 };

template <class F> static void pass(F &f) { // filters that only observe hand every event on unchanged, once and in order
  Rec got, want;
  listen(f, got);
  unsigned n = 1 + symx_pick(2), k = symx_pick(ALL);
  if (k == 5 || k == 1 || k == 3) each(4, f, "v"), each(4, want, "v");
  for (unsigned i = 0; i < n; ++i) { S s = one(); each(k, f, s); each(k, want, s); k = 6; }
  same(got.log, want.log, "events pass through unchanged");
  symx_reach("pass");
}
static void passes() {
  std::ostringstream os;
  switch (symx_pick(5)) {
    case 0: { Filter f; return pass(f); }
    case 1: { SAX::NamespaceTracker<S> f; return pass(f); }
    case 2: { SAX::XMLBaseTracker<S> f; f.setDocumentLocation("http://h/"); return pass(f); }
    case 3: { SAX::PYXWriter<S> f(os); return pass(f); }
    default: { SAX::Writer<S> f(os); return pass(f); }
  }
}
static void coalesce() {
  SAX::TextCoalescer<S> f;
  Rec got, want;
  listen(f, got);
  static const unsigned kinds[] = {6, 7, 4, 5, 8, 9, 16, 14, 15, 12, 13, 2};
  unsigned n = symx_param("C", 4);
  S buffer;
  for (unsigned i = 0; i < n; ++i) {
    unsigned k = kinds[symx_pick(12)];
    S s = k == 6 || k == 7 ? S(symx_pick(2), 'x') : S("v");
    for (size_t j = 0; j < s.size(); ++j) s[j] = symx_char();
    each(k, f, s);
    if (k == 6 || k == 7) { buffer += s; continue; }
    if (!buffer.empty()) want.characters(buffer);
    buffer.clear();
    each(k, want, s);
  }
  each(1, f, "");
  if (!buffer.empty()) want.characters(buffer);
  each(1, want, "");
  same(got.log, want.log, "adjacent text arrives as one event, in its place");
  symx_reach("coalesced");
}
static void textonly() {
  SAX::TextOnly<S> f;
  Rec got, want;
  listen(f, got);
  unsigned n = symx_param("O", 2);
  for (unsigned i = 0; i < n; ++i) {
    unsigned k = symx_pick(ALL);
    S s = one();
    each(k, f, s);
    if (k < 2 || k == 6 || k == 7 || k > 22) each(k, want, s);
  }
  same(got.log, want.log, "only text remains");
  symx_reach("text only");
}
static void strip() {
  SAX::WhitespaceStripper<S> f;
  Rec got, want;
  listen(f, got);
  for (unsigned i = 0; i < 2; ++i) {
    unsigned k = i ? 6 : symx_pick(ALL);
    S s = k == 6 ? data(symx_param("W", 3)) : one(), r;
    each(k, f, s);
    if (k == 7) continue;
    if (k == 6) { // words joined by single spaces
      bool gap = false;
      for (size_t j = 0; j < s.size(); ++j) if (s[j] == ' ' || s[j] == '\t' || s[j] == '\n' || s[j] == '\r') gap = true; else { if (gap && !r.empty()) r += ' '; gap = false; r += s[j]; }
      s = r;
    }
    each(k, want, s);
  }
  same(got.log, want.log, "text is normalised, everything else passes");
  symx_reach("stripped");
}
// namespace declarations in force, seen from inside the callbacks
struct NsProbe : Probe {
  const SAX::NamespaceTracker<S> *t;
  S ask() const {
    std::map<S, S> m = t->inScopeNamespaces();
    S r;
    for (std::map<S, S>::const_iterator i = m.begin(); i != m.end(); ++i) { r += i->first + "=" + i->second + ";"; if (t->getURI(i->first) != i->second) r += "!"; }
    return r + t->processElementName("n").namespaceUri() + "," + t->processName("n").namespaceUri() + "," + t->processElementName("a:n").namespaceUri();
  }
};
static void track() {
  SAX::NamespaceTracker<S> f;
  Rec got;
  NsProbe probe;
  probe.t = &f;
  got.probe = &probe;
  listen(f, got);
  std::vector<std::map<S, S> > stack(1);
  stack[0]["xml"] = "http://www.w3.org/XML/1998/namespace";
  stack[0][""] = "";
  Log want;
  Atts none;
  std::map<S, S> pending;
  unsigned n = symx_param("T", 4);
  for (unsigned i = 0; i < n; ++i) {
    S entry;
    std::map<S, S> now = stack.back();
    switch (symx_pick(3)) {
      case 0: {
        S p = symx_pick(2) ? S(1, symx_in("ab", 2)) : S(), u(1, symx_in("uv", 2));
        if (p.empty() && symx_pick(2)) u.clear();
        f.startPrefixMapping(p, u);
        pending[p] = u;
        want.push_back("startPrefixMapping|" + p + "|" + u + "|||");
        continue;
      }
      case 1:
        f.startElement("", "n", "n", none);
        for (std::map<S, S>::iterator j = pending.begin(); j != pending.end(); ++j) now[j->first] = j->second;
        pending.clear();
        stack.push_back(now);
        entry = "start||n|n||";
        break;
      default:
        if (stack.size() < 2 || !pending.empty()) return;
        f.endElement("", "n", "n");
        stack.pop_back();
        entry = "end||n|n||";
    }
    S s;
    for (std::map<S, S>::iterator j = now.begin(); j != now.end(); ++j) s += j->first + "=" + j->second + ";";
    want.push_back(entry + "@" + s + now[""] + ",," + (now.count("a") ? now["a"] : ""));
  }
  f.skippedEntity("z"); // what is in force after the last event
  S s;
  std::map<S, S> now = stack.back();
  for (std::map<S, S>::iterator j = now.begin(); j != now.end(); ++j) s += j->first + "=" + j->second + ";";
  want.push_back("skipped|z||||@" + s + now[""] + ",," + (now.count("a") ? now["a"] : ""));
  same(got.log, want, "the namespaces in force are those declared");
  symx_reach("tracked");
}
struct BaseProbe : Probe { const SAX::XMLBaseTracker<S> *t; S ask() const { return t->currentBase() + " " + t->makeAbsolute("r/s"); } };
static void bases() {
  SAX::XMLBaseTracker<S> f;
  Loc loc;
  Rec got;
  BaseProbe probe;
  probe.t = &f;
  listen(f, got);
  S doc = "http://h/d/e.xml";
  doc[9] = symx_in("de", 2);
  if (symx_pick(2)) f.setDocumentLocation(doc); else { loc.sys = doc; f.setDocumentLocator(loc); got.log.clear(); symx_reach("located"); }
  bool early = symx_pick(2); // ask from the first event on, or only at the end
  if (early) got.probe = &probe;
  std::vector<S> stack(1, doc);
  Log want;
  unsigned n = symx_param("B", 4);
  for (unsigned i = 0; i <= n; ++i) {
    if (i == n) { got.probe = &probe; f.skippedEntity("z"); want.push_back("skipped|z||||@" + stack.back() + " " + io::URI(io::URI(stack.back()), "r/s").as_string()); break; }
    S entry, b = stack.back();
    if (symx_pick(2)) {
      Atts a;
      static const char *const rel[] = {"", "x/", "/y/z", "../w", "http://k/m/"};
      S r = rel[symx_pick(5)];
      if (r == "x/") r[0] = symx_in("xz", 2);
      if (!r.empty()) { a.addAttribute("http://www.w3.org/XML/1998/namespace", "base", "xml:base", "CDATA", r); b = io::URI(io::URI(b), r).as_string(); }
      f.startElement("", "n", "n", a);
      stack.push_back(b);
      entry = "start||n|n|" + (r.empty() ? S() : "xml:base=" + r) + "|";
    } else {
      if (stack.size() < 2) return;
      f.endElement("", "n", "n");
      stack.pop_back();
      entry = "end||n|n||";
    }
    want.push_back(entry + (early ? "@" + b + " " + io::URI(io::URI(b), "r/s").as_string() : S()));
  }
  same(got.log, want, "the base in force is the innermost xml:base");
  symx_reach("based");
}
static void pyx() { // one line per event, decoded back
  std::ostringstream os;
  SAX::PYXWriter<S> f(os);
  S s = data(symx_param("P", 3)), out;
  Atts a;
  unsigned k = symx_pick(4);
  if (k == 0) { a.addAttribute("", "x", "p:x", "CDATA", s); a.addAttribute("", "y", "y", "CDATA", "2"); f.startElement("u", "n", "p:n", a); out = "(n\nAx "; }
  else if (k == 1) { f.characters(s); out = "-"; }
  else if (k == 2) { f.processingInstruction("t", s); out = "?t "; }
  else { f.startElement("u", "n", "p:n", a); f.characters(s); f.endElement("u", "n", "p:n"); out = "(n\n-"; }
  S got = os.str(), tail = k == 0 ? "\nAy 2\n" : k == 3 ? "\n)n\n" : "\n", text;
  symx_note("written %s", got.c_str());
  symx_check(got.compare(0, out.size(), out) == 0, "each event starts its line with its kind");
  size_t i = out.size();
  for (; i < got.size() && got[i] != '\n'; ++i) {
    if (got[i] == '\\' && i + 1 < got.size()) { ++i; text += got[i] == 'n' ? '\n' : got[i] == 't' ? '\t' : got[i]; }
    else text += got[i];
  }
  symx_check(text == s, "the text decodes to what was sent");
  symx_check(got.substr(i) == tail, "each event takes one line");
  symx_reach("pyx");
}
void symx_main() {
  switch (symx_pick(7)) {
    case 0: return passes();
    case 1: return coalesce();
    case 2: return textonly();
    case 3: return strip();
    case 4: return track();
    case 5: return bases();
    default: return pyx();
  }
}
