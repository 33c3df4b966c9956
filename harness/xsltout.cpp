// C26: what the XSLT result sinks make of a sequence of construction calls is the result tree: the stream is read back by
// the reader in xmlreader.h, the DOM is walked, and both are compared with a tree built here.
#include <iostream>
#include <sstream>
#include "symx.h"
#include "xmlreader.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <DOM/DocumentFragment.hpp>
#include <stack>
#include <XML/QName.hpp>
#include <SAX/SAXException.hpp>
#include <XSLT/impl/xslt_sink.hpp>
using namespace Arabica;
typedef DOM::Node<S> Node;
typedef XSLT::Output<S, default_string_adaptor<S> > Output;
typedef XSLT::QName<S, default_string_adaptor<S> > QName;
static const char *XMLNS = "http://www.w3.org/XML/1998/namespace";
// ---- reading back
struct Document : Reader {
  Document(const S &t) : Reader(t) {}
  S quoted() { char q = cur(); if (q != '"' && q != '\'') throw Bad(); S t; for (++p; cur() != q; ++p) t += cur(); ++p; return t; }
  void read() {
    Scope in; in["xml"] = XMLNS;
    if (eat("<?xml ")) {
      S standalone;
      need("version="); if (quoted() != "1.0") throw Bad();
      if (eat(" standalone=")) { standalone = quoted(); if (standalone != "yes" && standalone != "no") throw Bad(); }
      need("?>"); ws();
      put(out, 'x', standalone, "");
    }
    for (;;) {
      size_t doctype = s.find("<!DOCTYPE ", p);
      if (doctype != S::npos && at("<!DOCTYPE ")) {
        eat("<!DOCTYPE ");
        S n = name(), pub; if (!ws()) throw Bad();
        if (eat("PUBLIC")) { ws(); pub = quoted(); if (!ws()) throw Bad(); } else { need("SYSTEM"); if (!ws()) throw Bad(); }
        S sys = quoted(); ws(); need(">"); ws();
        put(out, 'd', n, sys, pub);
        break;
      }
      if (doctype == S::npos || p >= s.size() || !(at("<!--") || at("<?"))) break;
      if (eat("<!--")) put(out, 'c', "", until("-->")); else { eat("<?"); S n = name(), d; if (ws()) d = until("?>"); else need("?>"); put(out, 'p', n, d); }
    }
    content(in);
    if (p < s.size()) throw Bad();
  }
};
static void walk(const Node &n, Evs &out) {
  for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling())
    switch (c.getNodeType()) {
      case DOM::Node_base::TEXT_NODE: put(out, 't', "", c.getNodeValue(), "", 1); break;
      case DOM::Node_base::CDATA_SECTION_NODE: put(out, 't', "", c.getNodeValue(), "", 2); break;
      case DOM::Node_base::COMMENT_NODE: put(out, 'c', "", c.getNodeValue()); break;
      case DOM::Node_base::PROCESSING_INSTRUCTION_NODE: put(out, 'p', c.getNodeName(), c.getNodeValue()); break;
      case DOM::Node_base::ELEMENT_NODE: {
        put(out, '<', c.getLocalName(), "", c.getNamespaceURI());
        DOM::NamedNodeMap<S> m = c.getAttributes();
        for (size_t i = 0; i < m.getLength(); ++i) out.back().atts.insert(Att(std::make_pair(m.item(i).getNamespaceURI(), m.item(i).getLocalName()), m.item(i).getNodeValue()));
        walk(c, out);
        put(out, '>', "", ""); break;
      }
      default: symx_fail("the tree has only the kinds of nodes results have");
    }
}
static bool blank(const S &s) { for (size_t i = 0; i < s.size(); ++i) if (!(s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) return false; return true; }
static Evs stripped(const Evs &l) { Evs r; for (size_t i = 0; i < l.size(); ++i) if (l[i].kind != 't' || !blank(l[i].value)) r.push_back(l[i]); return r; }
// declarations which must be in scope unless names in the tag need the prefix
typedef std::map<size_t, Scope> Copied;
static void compare(const Evs &got, const Evs &want, const char *size, const char *same) {
  if (symx_replaying()) for (size_t i = 0; i < want.size(); ++i) symx_note("want %c {%s}%s [%s] %d", want[i].kind, want[i].uri.c_str(), want[i].name.c_str(), want[i].value.c_str(), (int)want[i].atts.size());
  symx_check(got.size() == want.size(), size);
  if (got.size() != want.size()) return;
  bool good = true;
  for (size_t i = 0; i < want.size(); ++i)
    good &= got[i].kind == want[i].kind && got[i].uri == want[i].uri && got[i].name == want[i].name && got[i].value == want[i].value && got[i].atts == want[i].atts
            && (want[i].kind != 't' || blank(want[i].value) || got[i].how == want[i].how);
  symx_check(good, same);
}
// ---- what is asked for, and the tree it should make
struct Run {
  Output *o[2];
  Evs want; Copied copied;
  std::vector<int> open; // elements: where they are in want
  bool tag, cdata, text; S words; int refused;
  Run(Output &a, Output &b) : tag(false), cdata(false), text(false), refused(0) { o[0] = &a; o[1] = &b; }
  void start(const S &prefix, const S &local, const S &uri) {
    for (int i = 0; i < 2; ++i) { if (prefix.empty() || !symx_param("QNAMES", 1)) o[i]->start_element(prefix, local, uri); else o[i]->start_element(prefix + ":" + local, uri); }
    put(want, '<', local, "", uri); open.push_back((int)want.size() - 1); tag = true;
  }
  void end() {
    for (int i = 0; i < 2; ++i) o[i]->end_element("", "", "");
    put(want, '>', "", ""); open.pop_back(); tag = false;
  }
  void value(const S &local, const S &uri, const S &v) {
    std::set<Att> &a = want[open.back()].atts;
    for (std::set<Att>::iterator i = a.begin(); i != a.end(); ++i) if (i->first.first == uri && i->first.second == local) { a.erase(i); break; }
    a.insert(Att(std::make_pair(uri, local), v));
  }
  void attribute(const S &prefix, const S &local, const S &uri, const S &v, bool whole) {
    for (int i = 0; i < 2; ++i)
      if (whole) o[i]->add_attribute(uri, local, prefix.empty() ? local : prefix + ":" + local, v);
      else { o[i]->start_attribute(prefix, local, uri); o[i]->characters(v); o[i]->end_attribute(); }
    if (tag || text) { if (tag) value(local, uri, v); } else ++refused;
  }
  void copy(const S &prefix, const S &uri) {
    if (tag && copied[open.back()].count(prefix)) return; // an element's declarations don't disagree
    for (int i = 0; i < 2; ++i) o[i]->copy_namespace(prefix, uri);
    if (tag) copied[open.back()][prefix] = uri;
  }
  void chars(const S &s) {
    for (int i = 0; i < 2; ++i) o[i]->characters(s);
    if (s.empty()) return;
    put(want, 't', "", s, "", cdata && !open.empty() && want[open.back()].name == "c" && want[open.back()].uri == "" ? 2 : 1);
    words += s; tag = false;
  }
  void comment(const S &s) {
    for (int i = 0; i < 2; ++i) { o[i]->start_comment(); o[i]->characters(s); o[i]->end_comment(); }
    put(want, 'c', "", s); tag = false;
  }
  void pi(const S &t, const S &s) {
    for (int i = 0; i < 2; ++i) { o[i]->start_processing_instruction(t); o[i]->characters(s); o[i]->end_processing_instruction(); }
    put(want, 'p', t, s); tag = false;
  }
};
struct Sinks {
  std::ostringstream out, err; size_t from, warned;
  XSLT::StreamSink<S> stream, warnings; XSLT::DOMSink<S> dom;
  Output::Settings settings;
  Sinks() : from(0), warned(0), stream(out), warnings(err) { stream.asOutput().set_warning_sink(warnings.asOutput()); dom.asOutput().set_warning_sink(warnings.asOutput()); }
  void begin(Run &r, bool cdata = false) {
    Output::CDATAElements c;
    if (cdata) c.insert(QName::create("c", ""));
    r.cdata = cdata; r.text = settings.count("method") && settings["method"] == "text";
    from = out.str().size(); warned = err.str().size();
    for (int i = 0; i < 2; ++i) r.o[i]->start_document(settings, c);
  }
  void finish(Run &r, bool domToo = true, bool declared = true) {
    for (int i = 0; i < 2; ++i) r.o[i]->end_document();
    S s = out.str().substr(from);
    symx_note("%s", s.c_str());
    symx_check((err.str().size() != warned) == (r.refused != 0), "there are warnings when something was left out");
    if (r.text) { symx_check(s == r.words, "as text, only the text is written, as it is"); return; }
    Document d(s);
    bool good = true;
    try { d.read(); } catch (const Bad &) { good = false; }
    symx_check(good, "what is written is well-formed");
    if (!good) return;
    if (!d.out.empty() && d.out[0].kind == 'x') {
      symx_check(settings["omit-xml-declaration"] != "yes" && d.out[0].name == settings["standalone"], "there is an XML declaration when it is wanted");
      d.out.erase(d.out.begin());
    } else symx_check(settings["omit-xml-declaration"] == "yes" || r.want.empty(), "there is an XML declaration when it is wanted");
    S sys = settings["doctype-system"];
    for (size_t i = 0; i < d.out.size(); ++i)
      if (d.out[i].kind == 'd') {
        symx_check(!sys.empty() && d.out[i].value == sys && d.out[i].uri == settings["doctype-public"] && i + 1 < d.out.size() && d.out[i + 1].kind == '<' && d.out[i].name == d.out[i + 1].raw, "the document type is before the first element");
        sys = ""; d.out.erase(d.out.begin() + i);
      }
    bool any = false;
    for (size_t i = 0; i < r.want.size(); ++i) any |= r.want[i].kind == '<';
    symx_check(sys.empty() || !any, "the document type is before the first element");
    bool indent = settings["indent"] == "yes";
    if (indent) compare(stripped(d.out), stripped(r.want), "indented, only whitespace is added", "indented, the rest is written as it is");
    else compare(d.out, r.want, "as much is written as was asked for", "what is written is what was asked for");
    if (d.out.size() == r.want.size())
      for (Copied::iterator i = r.copied.begin(); i != r.copied.end(); ++i)
        for (Scope::iterator n = i->second.begin(); n != i->second.end(); ++n) {
          const Ev &e = d.out[i->first]; Scope::const_iterator at = e.scope.find(n->first);
          bool in = at == e.scope.end() ? n->second.empty() : at->second == n->second;
          bool used = e.raw.find(':') == S::npos ? n->first.empty() : e.raw.substr(0, e.raw.find(':')) == n->first;
          for (std::set<Att>::const_iterator a = e.atts.begin(); a != e.atts.end(); ++a) used |= at != e.scope.end() && a->first.first == at->second;
          symx_check(in || used, "namespace declarations copied are in scope");
        }
    if (!domToo) return;
    Evs tree;
    if (dom.node() != 0) walk(dom.node(), tree);
    if (indent) compare(stripped(tree), stripped(r.want), "indented, only whitespace is added to the tree", "indented, the rest of the tree is as it was");
    else compare(tree, r.want, "as much is in the tree as was asked for", "the tree is what was asked for");
  }
};
static int uris = 9;
static S uri() { return uris++ < symx_param("FIXED", 1) ? S("u") : S(1, symx_in("uv", 2)); }
static S prefix(bool none = false) { int k = symx_pick(none ? 3 : 2); return k == 2 ? S() : k ? S(1, symx_in("pq", 2)) : S("auto-ns1"); }
static void element(Run &r, int kinds, int atts) {
  int k = symx_pick(kinds);
  if (k == 0) r.start("", "e", ""); else if (k == 1) r.start("", "e", uri()); else if (k == 2) r.start(prefix(), "e", uri()); else r.start("xml", "e", k == 3 ? S("u") : S(XMLNS));
  for (int i = 0; i < atts; ++i) {
    S v(1, (char)('1' + i)), local(1, "ab"[symx_pick(i + 1)]);
    int a = symx_pick(i ? 6 : 7);
    switch (a) {
      case 0: break;
      case 1: r.attribute("", local, "", v, symx_pick(2)); break;
      case 2: r.attribute("", local, uri(), v, false); break;
      case 3: r.attribute(prefix(), local, uri(), v, i); break;
      case 4: r.copy(prefix(true), uri()); break;
      case 5: r.attribute(i ? "p" : "xml", local, XMLNS, v, i); break;
      case 6: r.copy("", ""); break;
    }
  }
}
static void names() {
  Sinks s; Run r(s.stream.asOutput(), s.dom.asOutput());
  s.settings["omit-xml-declaration"] = "yes";
  s.begin(r);
  int inner = symx_pick(2);
  uris = 0;
  element(r, inner ? 3 : 5, inner ? 1 : symx_param("ATTS", 2));
  element(r, inner ? 5 : 2, inner ? symx_param("INNER", 1) : 0);
  r.start("", "e", "u"); r.end();
  r.end();
  r.start("", "n", ""); r.start("p", "e", "v"); r.start("", "n", ""); r.end(); r.end(); r.end();
  r.end();
  s.finish(r);
  symx_reach("names");
}
static S xml(int n) { S s = symx_string(n); for (size_t i = 0; i < s.size(); ++i) symx_assume((unsigned char)s[i] >= 0x20 || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'); return s; }
static S escaped(const S &s, const char *find, bool hyphen) { // each occurrence broken with a space
  S t; bool last = false;
  for (size_t i = 0; i < s.size(); ++i) { if (last && s[i] == find[1]) t += ' '; t += s[i]; last = s[i] == find[0]; }
  if (hyphen && !t.empty() && t[t.size() - 1] == '-') t += ' ';
  return t;
}
// arbitrary characters, in up to two pieces
static void contents() {
  Sinks s; Run r(s.stream.asOutput(), s.dom.asOutput());
  int kind = symx_pick(5), n = symx_pick(symx_param("N", 4) + 1), cut = symx_pick(n + 1);
  s.settings["omit-xml-declaration"] = "yes";
  s.begin(r, kind == 1);
  r.start("", "c", "");
  S v = xml(n), a = v.substr(0, cut), b = v.substr(cut);
  if (kind && kind != 4) for (int i = 0; i < n; ++i) symx_assume(v[i] != '\r'); // where nothing can be escaped
  if (kind == 3) for (int i = 0; i < n; ++i) symx_assume((unsigned char)v[i] < 0x80); // others must be UTF-8
  for (int i = 0; i < 2; ++i) {
    Output &o = *r.o[i];
    switch (kind) {
      case 0: case 1: o.characters(a); o.characters(b); break;
      case 2: o.start_comment(); o.characters(a); o.characters(b); o.end_comment(); break;
      case 3: o.start_processing_instruction("pi"); o.characters(a); o.characters(b); o.end_processing_instruction(); break;
      case 4: o.start_attribute("a", ""); o.characters(a); o.characters(b); o.end_attribute(); break;
    }
  }
  switch (kind) {
    case 0: put(r.want, 't', "", v, "", 1); break;
    case 1: put(r.want, 't', "", v, "", 2); break;
    case 2: put(r.want, 'c', "", escaped(v, "--", true)); break;
    case 3: if (n) symx_assume(v[0] != ' ' && v[0] != '\t' && v[0] != '\n'); put(r.want, 'p', "pi", escaped(v, "?>", false)); break;
    case 4: r.value("a", "", v); break;
  }
  r.end();
  s.finish(r);
  symx_reach("contents");
}
static void ends() { // the characters which end CDATA sections, in three pieces
  Sinks s; Run r(s.stream.asOutput(), s.dom.asOutput());
  s.begin(r, true);
  r.start("", "c", "");
  int n = symx_param("ENDS", 6), i = symx_pick(n + 1), j = i + symx_pick(n + 1 - i); S v(n, 'x');
  for (int k = 0; k < n; ++k) v[k] = symx_in("]>", 2);
  r.chars(v.substr(0, i)); r.chars(v.substr(i, j - i)); r.chars(v.substr(j));
  r.end();
  s.finish(r);
  symx_reach("ends");
}
// one thing asked for; false when there is no more to ask
static void ask(Run &r, int k, bool out) {
  S c(1, symx_in("xy ", 3));
  switch (k) {
    case 0: r.start("", "c", ""); break;
    case 1: if (r.open.empty()) r.start("", "d", ""); else r.end(); break;
    case 2: if (r.open.empty()) return; r.chars(c); break;
    case 3: r.comment(c); break;
    case 4: if (r.open.empty() && !r.want.empty() && false) return; r.attribute("", "a", "", c, symx_pick(2)); break;
    case 5: r.pi("t", c == " " ? S() : c); break;
    case 6: r.chars(""); break;
    case 7: { // anything but text in an attribute is left out
      if (!r.tag && !r.text) { r.attribute("", "b", "", c, false); break; }
      bool tag = r.tag;
      for (int i = 0; i < 2; ++i) {
        Output &o = *r.o[i];
        o.start_attribute("", "b", ""); o.characters(c);
        if (o.start_element("", "z", "")) symx_fail("there are no elements in attributes");
        o.start_comment(); o.characters("z"); o.start_processing_instruction("z"); o.characters("z"); o.end_processing_instruction(); o.end_comment();
        o.start_attribute("", "z", ""); o.characters("z"); o.end_attribute(); o.add_attribute("", "z", "z", "z"); o.copy_namespace("z", "z");
        o.characters("2"); o.end_attribute();
      }
      if (tag) r.value("b", "", c + "2");
      ++r.refused; break;
    }
    case 8: { // nor in a comment
      for (int i = 0; i < 2; ++i) {
        Output &o = *r.o[i];
        o.start_comment(); o.characters(c);
        if (o.start_element("", "z", "")) symx_fail("there are no elements in comments");
        o.start_attribute("", "z", ""); o.characters("z"); o.end_attribute();
        o.start_comment(); o.end_comment();
        o.characters("2"); o.end_comment();
      }
      put(r.want, 'c', "", c + "2"); r.tag = false; ++r.refused; break;
    }
  }
}
static void history() {
  Sinks s; Run r(s.stream.asOutput(), s.dom.asOutput());
  switch (symx_pick(3)) { case 0: break; case 1: s.settings["indent"] = "yes"; break; case 2: s.settings["method"] = "text"; break; }
  s.begin(r, symx_pick(2));
  r.start("", "c", "");
  for (int i = symx_param("M", 4); i > 0 && !r.open.empty(); --i) ask(r, symx_pick(9), false);
  while (!r.open.empty()) r.end();
  s.finish(r);
  symx_reach("history");
}
static void prolog() {
  Sinks s; Run r(s.stream.asOutput(), s.dom.asOutput());
  int k = symx_pick(6);
  if (k & 1) s.settings["omit-xml-declaration"] = "yes"; else if (symx_pick(2)) s.settings["omit-xml-declaration"] = "no";
  if (symx_pick(2)) s.settings["standalone"] = symx_pick(2) ? "yes" : "no";
  if (k >= 2) { s.settings["doctype-system"] = S(1, symx_in("s'\"", 3)); if (k >= 4) s.settings["doctype-public"] = S(1, symx_in("p'", 2)); }
  if (symx_pick(2)) s.settings["version"] = "1.0";
  if (symx_pick(2)) s.settings["indent"] = "yes";
  s.begin(r);
  for (int i = symx_pick(3); i > 0; --i) if (symx_pick(2)) r.comment("x"); else r.pi("t", "x");
  int e = symx_pick(4);
  if (e) { r.start(e == 2 ? "p" : "", "e", e == 1 ? "" : "u"); if (symx_pick(2)) r.chars("x"); r.end(); }
  if (symx_pick(2)) r.comment("y");
  s.finish(r);
  symx_reach("prolog");
}
static void again() { // left anywhere, and used again
  Sinks s;
  {
    Run r(s.stream.asOutput(), s.dom.asOutput());
    switch (symx_pick(3)) { case 0: break; case 1: s.settings["indent"] = "yes"; break; case 2: s.settings["method"] = "text"; break; }
    s.begin(r, true);
    for (int i = symx_pick(3); i > 0; --i) { r.start("p", "c", i == 1 ? "" : "u"); if (symx_pick(2)) r.chars("<"); }
    if (!r.open.empty())
      for (int k = symx_pick(5), i = 0; i < 2; ++i) switch (k) {
        case 0: break;
        case 1: r.o[i]->start_attribute("", "a", "u"); r.o[i]->characters("x"); break;
        case 2: r.o[i]->start_comment(); r.o[i]->start_comment(); break;
        case 3: r.o[i]->characters("]]>"); break;
        case 4: r.o[i]->copy_namespace("", "u"); break;
      }
  }
  s.settings.clear();
  Run r(s.stream.asOutput(), s.dom.asOutput());
  if (symx_pick(2)) s.settings["indent"] = "yes";
  Evs before; if (s.dom.node() != 0) walk(s.dom.node(), before);
  s.begin(r);
  int k = symx_pick(3);
  r.start("", "c", k ? S() : uri()); if (k == 2) r.attribute("", "a", "", "x", false); r.chars("<"); r.start("", "e", ""); r.end(); r.comment("x"); r.end();
  s.finish(r, before.empty());
  symx_reach("again");
}
extern "C" void symx_main(void) {
  { Sinks s; Run r(s.stream.asOutput(), s.dom.asOutput()); s.settings["indent"] = "yes"; s.begin(r, true); r.start("p", "c", "u"); r.attribute("", "a", "v", "x", false); r.chars("]]>"); r.comment("x"); r.pi("x", "y"); r.end(); r.attribute("", "x", "", "", true); s.finish(r); }
  long live = symx_live();
  int part = symx_pick(6), only = symx_param("ONLY", -1);
  if (only >= 0) symx_assume(part == only);
  switch (part) { case 0: names(); break; case 1: contents(); break; case 2: ends(); break; case 3: history(); break; case 4: prolog(); break; default: again(); }
  symx_check(symx_live() == live, "nothing is left behind");
}
