// C27: running a stylesheet makes the result tree XSLT 1.0 says it makes. Stylesheets are put together from pieces, each
// carrying both its text, which the code under test compiles and runs, and what it means, over the tree in xpmodel.h.
#include <iostream>
#include <sstream>
#include <memory>
#include "symx.h"
#include <expat.h>
#include <SAX/XMLReader.hpp>
#include <../src/SAX/wrappers/saxexpat.cpp>
#include "xmlreader.h"
#include "xpmodel.h"
#include <XSLT/XSLT.hpp>
#include <stack>
#include "expatstub.h"
#include "symx_locale.h"
typedef default_string_adaptor<S> SA;
// ---- the parser: reads the little XML the stylesheets are written in
static std::vector<S> sheets;
static S unescape(const S &s) {
  S t;
  for (size_t i = 0; i < s.size(); ++i)
    if (s.compare(i, 4, "&lt;") == 0) t += '<', i += 3;
    else if (s.compare(i, 4, "&gt;") == 0) t += '>', i += 3;
    else if (s.compare(i, 5, "&amp;") == 0) t += '&', i += 4;
    else t += s[i];
  return t;
}
static int scan(XML_Parser p, const S &t) {
  for (size_t i = 0; i < t.size();) {
    if (t[i] != '<') { size_t e = t.find('<', i); S c = unescape(t.substr(i, e - i)); p->chars(p->user, c.c_str(), c.size()); i = e; continue; }
    if (t.compare(i, 4, "<!--") == 0) { size_t e = t.find("-->", i); S c = t.substr(i + 4, e - i - 4); p->comment(p->user, c.c_str()); i = e + 3; continue; }
    if (t[i + 1] == '/') { size_t e = t.find('>', i); S n = t.substr(i + 2, e - i - 2); p->end(p->user, n.c_str()); i = e + 1; continue; }
    size_t e = i + 1;
    while (t[e] != ' ' && t[e] != '>' && t[e] != '/') ++e;
    S n = t.substr(i + 1, e - i - 1);
    std::vector<S> a;
    while (t[e] == ' ') { size_t q = t.find('=', e); a.push_back(t.substr(e + 1, q - e - 1)); e = t.find('"', q + 2); a.push_back(unescape(t.substr(q + 2, e - q - 2))); ++e; }
    std::vector<const char *> c;
    for (size_t k = 0; k < a.size(); ++k) c.push_back(a[k].c_str());
    c.push_back(0);
    p->start(p->user, n.c_str(), c.data());
    if (t[e] == '/') { p->end(p->user, n.c_str()); ++e; }
    i = e + 1;
  }
  return 1;
}
static int parse(XML_Parser p, const char *b, int n, int) { return n ? scan(p, sheets[b[0] - '0']) : 1; }
static std::istream *resolve(const S &uri) { return new std::istringstream(uri.substr(uri.size() - 1)); }
// ---- values, and where instructions are run
struct Val { int type; S s; double n; bool b; Set set; Evs tree; Val() : type(0), n(0), b(false) {} }; // 0 string, 1 number, 2 boolean, 3 node-set, 4 result tree fragment
static S digits(double d) { int i = (int)d; S s; bool neg = i < 0; if (neg) i = -i; do s.insert(s.begin(), (char)('0' + i % 10)); while (i /= 10); return neg ? "-" + s : s; }
static S words(const Evs &e) { S s; for (size_t i = 0; i < e.size(); ++i) if (e[i].kind == 't') s += e[i].value; return s; }
static S str(const Val &v) { return v.type == 0 ? v.s : v.type == 1 ? digits(v.n) : v.type == 2 ? S(v.b ? "true" : "false") : v.type == 3 ? (v.set.empty() ? S() : stringValue(v.set[0])) : words(v.tree); }
static bool truth(const Val &v) { return v.type == 0 ? !v.s.empty() : v.type == 1 ? v.n != 0 : v.type == 2 ? v.b : v.type == 3 ? !v.set.empty() : true; }
static Val string(const S &s) { Val v; v.s = s; return v; }
static Val number(double n) { Val v; v.type = 1; v.n = n; return v; }
static Val boolean(bool b) { Val v; v.type = 2; v.b = b; return v; }
static Val nodes(const Set &s) { Val v; v.type = 3; v.set = s; inOrder(v.set); return v; }
struct Rule { bool any; S mode; std::vector<int> level; Rule() : any(false) {} };
struct Cx { int node, pos, size; std::map<S, Val> vars, passed; Rule rule; };
struct E { S xml; std::function<Val(const Cx &)> get; };
struct I { S xml; std::function<void(Cx &, Evs &)> run; };
typedef std::vector<I> Is;
static S xml(const Is &b) { S s; for (size_t i = 0; i < b.size(); ++i) s += b[i].xml; return s; }
static void run(const Is &b, Cx c, Evs &o) { for (size_t i = 0; i < b.size(); ++i) b[i].run(c, o); }
static Is operator+(Is a, const Is &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Is is(const I &a) { return Is(1, a); }
static S nameOf(int n) { return T[n].kind == ELEM || T[n].kind == ATTR || T[n].kind == PI ? (T[n].uri.empty() ? T[n].local : "p:" + T[n].local) : S(); }
// ---- expressions
static E lit(const S &s) { E e = {"'" + s + "'", [=](const Cx &) { return string(s); }}; return e; }
static E num(int n) { E e = {digits(n), [=](const Cx &) { return number(n); }}; return e; }
static E dot() { E e = {".", [](const Cx &c) { return nodes(Set(1, c.node)); }}; return e; }
static E position() { E e = {"position()", [](const Cx &c) { return number(c.pos); }}; return e; }
static E last() { E e = {"last()", [](const Cx &c) { return number(c.size); }}; return e; }
static E named() { E e = {"name()", [](const Cx &c) { return string(nameOf(c.node)); }}; return e; }
static E current() { E e = {"name(current())", [](const Cx &c) { return string(nameOf(c.node)); }}; return e; }
static E var(const S &n) { E e = {"$" + n, [=](const Cx &c) { return c.vars.find(n)->second; }}; return e; }
static E axis(int ax, int test) { E e = {S(axisName[ax]) + "::" + testName[test], [=](const Cx &c) { return nodes(select(c.node, ax, test)); }}; return e; }
static E all() { E e = {"//*", [](const Cx &c) { return nodes(select(0, DESC, STAR)); }}; return e; }
static E count(const E &x) { E e = {"count(" + x.xml + ")", [=](const Cx &c) { return number(x.get(c).set.size()); }}; return e; }
static E none() { E e = {"/..", [](const Cx &) { return nodes(Set()); }}; return e; }
static E text(const E &x) { E e = {"string(" + x.xml + ")", [=](const Cx &c) { return string(str(x.get(c))); }}; return e; }
static E concat(const E &x, const E &y) { E e = {"concat(" + x.xml + ", " + y.xml + ")", [=](const Cx &c) { return string(str(x.get(c)) + str(y.get(c))); }}; return e; }
// ---- instructions
static I say(const S &t) { I i = {"<xsl:text>" + t + "</xsl:text>", [=](Cx &, Evs &o) { put(o, 't', "", t); }}; return i; }
static I words(const S &t) { I i = {t, [=](Cx &, Evs &o) { put(o, 't', "", t); }}; return i; }
static I valueOf(const E &e) { I i = {"<xsl:value-of select=\"" + e.xml + "\"/>", [=](Cx &c, Evs &o) { put(o, 't', "", str(e.get(c))); }}; return i; }
static void splice(Evs &o, const Evs &t) { for (size_t i = 0; i < t.size(); ++i) if (t[i].kind == 't') put(o, 't', "", t[i].value); else o.push_back(t[i]); }
static I lre(const S &n, const Is &b) { I i = {"<" + n + ">" + xml(b) + "</" + n + ">", [=](Cx &c, Evs &o) { put(o, '<', n, ""); run(b, c, o); put(o, '>', "", ""); }}; return i; }
static I elem(const E &n, const Is &b) { I i = {"<xsl:element name=\"{" + n.xml + "}\">" + xml(b) + "</xsl:element>", [=](Cx &c, Evs &o) { put(o, '<', str(n.get(c)), ""); run(b, c, o); put(o, '>', "", ""); }}; return i; }
static S said; static bool mixed; static int saying; // by xsl:message, unless other things are in there as well
static S textOnly(const Evs &t) { S s; int in = 0; for (size_t i = 0; i < t.size(); ++i) if (t[i].kind != 't') { mixed = true; in += (t[i].kind == '<') - (t[i].kind == '>'); } else if (!in) s += t[i].value; return s; } // anything else is left out, with what is in it
static void attr(Evs &o, const S &n, const S &v, const S &uri = "") {
  if (o.empty() || o.back().kind != '<') { mixed = true; return; } // too late, or nowhere: left out
  std::set<Att> &a = o.back().atts;
  for (std::set<Att>::iterator i = a.begin(); i != a.end(); ++i) if (i->first == std::make_pair(uri, n)) { a.erase(i); break; }
  a.insert(Att(std::make_pair(uri, n), v));
}
static I attribute(const S &n, const Is &b) { I i = {"<xsl:attribute name=\"" + n + "\">" + xml(b) + "</xsl:attribute>", [=](Cx &c, Evs &o) { Evs t; run(b, c, t); attr(o, n, textOnly(t)); }}; return i; }
static I comment(const Is &b) { I i = {"<xsl:comment>" + xml(b) + "</xsl:comment>", [=](Cx &c, Evs &o) { Evs t; run(b, c, t); put(o, 'c', "", textOnly(t)); }}; return i; }
static I pi(const S &n, const Is &b) { I i = {"<xsl:processing-instruction name=\"" + n + "\">" + xml(b) + "</xsl:processing-instruction>", [=](Cx &c, Evs &o) { Evs t; run(b, c, t); put(o, 'p', n, textOnly(t)); }}; return i; }
static I if_(const E &e, const Is &b) { I i = {"<xsl:if test=\"" + e.xml + "\">" + xml(b) + "</xsl:if>", [=](Cx &c, Evs &o) { if (truth(e.get(c))) run(b, c, o); }}; return i; }
static I choose(const E &e, const Is &a, const E &f, const Is &b, const Is &d) {
  I i = {"<xsl:choose><xsl:when test=\"" + e.xml + "\">" + xml(a) + "</xsl:when><xsl:when test=\"" + f.xml + "\">" + xml(b) + "</xsl:when><xsl:otherwise>" + xml(d) + "</xsl:otherwise></xsl:choose>",
         [=](Cx &c, Evs &o) { run(truth(e.get(c)) ? a : truth(f.get(c)) ? b : d, c, o); }};
  return i;
}
static I message(const Is &b) { I i = {"<xsl:message>" + xml(b) + "</xsl:message>", [=](Cx &c, Evs &) { Evs t; if (saying++) mixed = true; run(b, c, t); said += textOnly(t); --saying; }}; return i; }
static void copyNode(int n, Evs &o) {
  const M &m = T[n];
  switch (m.kind) {
    case ROOT: case ELEM:
      if (m.kind == ELEM) put(o, '<', m.local, "", m.uri);
      for (unsigned i = n + 1; i < T.size(); ++i) if (T[i].parent == n) copyNode(i, o);
      if (m.kind == ELEM) put(o, '>', "", "");
      break;
    case ATTR: attr(o, m.local, m.value, m.uri); break;
    case TEXT: put(o, 't', "", m.value); break;
    case COMMENT: put(o, 'c', "", m.value); break;
    case PI: put(o, 'p', m.local, m.value); break;
  }
}
static I copyOf(const E &e) { I i = {"<xsl:copy-of select=\"" + e.xml + "\"/>", [=](Cx &c, Evs &o) { Val v = e.get(c); if (v.type == 4) splice(o, v.tree); else if (v.type != 3) put(o, 't', "", str(v)); else for (size_t k = 0; k < v.set.size(); ++k) copyNode(v.set[k], o); }}; return i; }
static I copy(const Is &b) {
  I i = {"<xsl:copy>" + xml(b) + "</xsl:copy>", [=](Cx &c, Evs &o) {
    const M &m = T[c.node];
    if (m.kind == ELEM) { put(o, '<', m.local, "", m.uri); run(b, c, o); put(o, '>', "", ""); }
    else if (m.kind == ROOT) run(b, c, o);
    else copyNode(c.node, o);
  }};
  return i;
}
// sorting
struct Key { E e; bool numeric, descending; };
static double value(const S &s) { // of the numbers used here
  if (s.empty() || s.size() > 2 || (s.size() == 2 && s[0] != '-')) return NAN;
  char d = s[s.size() - 1];
  return d < '0' || d > '9' ? NAN : s.size() == 2 ? '0' - d : d - '0';
}
static S xml(const std::vector<Key> &k) {
  S s;
  for (size_t i = 0; i < k.size(); ++i) s += "<xsl:sort select=\"" + k[i].e.xml + "\"" + (k[i].numeric ? " data-type=\"number\"" : "") + (k[i].descending ? " order=\"descending\"" : "") + "/>";
  return s;
}
static Set sorted(const std::vector<Key> &k, const Set &in, const Cx &c) {
  std::vector<std::vector<Val> > keys(in.size());
  for (size_t i = 0; i < in.size(); ++i)
    for (size_t j = 0; j < k.size(); ++j) { Cx n = c; n.node = in[i]; n.pos = i + 1; n.size = in.size(); Val v = string(str(k[j].e.get(n))); if (k[j].numeric) v.n = value(v.s); keys[i].push_back(v); }
  std::vector<int> at;
  for (size_t i = 0; i < in.size(); ++i) { // put after all it is not before
    size_t p = at.size();
    while (p > 0) {
      int less = 0; // this before the one at p-1?
      for (size_t j = 0; j < k.size() && !less; ++j) {
        const Val &a = keys[i][j], &b = keys[at[p - 1]][j];
        if (k[j].numeric) { bool x = a.n != a.n, y = b.n != b.n; less = x || y ? (int)x - (int)y : a.n < b.n ? 1 : a.n > b.n ? -1 : 0; }
        else { int r = a.s.compare(b.s); less = r < 0 ? 1 : r > 0 ? -1 : 0; }
        if (k[j].descending) less = -less;
      }
      if (less <= 0) break;
      --p;
    }
    at.insert(at.begin() + p, i);
  }
  Set r;
  for (size_t i = 0; i < at.size(); ++i) r.push_back(in[at[i]]);
  return r;
}
static I forEach(const E &e, const Is &b, const std::vector<Key> &k = std::vector<Key>()) {
  I i = {"<xsl:for-each select=\"" + e.xml + "\">" + xml(k) + xml(b) + "</xsl:for-each>", [=](Cx &c, Evs &o) {
    Set s = sorted(k, e.get(c).set, c);
    for (size_t p = 0; p < s.size(); ++p) { Cx n = c; n.node = s[p]; n.pos = p + 1; n.size = s.size(); n.rule = Rule(); run(b, n, o); }
  }};
  return i;
}
// variables
struct Bind { S name; bool select; E e; Is b; };
static Bind bound(const S &n, const E &e) { Bind b; b.name = n; b.select = true; b.e = e; return b; }
static Bind bound(const S &n, const Is &c) { Bind b; b.name = n; b.select = false; b.b = c; return b; }
static S xml(const Bind &b, const S &tag) { return "<xsl:" + tag + " name=\"" + b.name + "\"" + (b.select ? " select=\"" + b.e.xml + "\"/>" : b.b.empty() ? S("/>") : ">" + xml(b.b) + "</xsl:" + tag + ">"); }
static Val valueOfBind(const Bind &b, const Cx &c) { if (b.select) return b.e.get(c); if (b.b.empty()) return string(""); Val v; v.type = 4; run(b.b, c, v.tree); return v; }
static I variable(const Bind &b) { I i = {xml(b, "variable"), [=](Cx &c, Evs &) { c.vars[b.name] = valueOfBind(b, c); }}; return i; }
static I param(const Bind &b) { I i = {xml(b, "param"), [=](Cx &c, Evs &) { c.vars[b.name] = c.passed.count(b.name) ? c.passed[b.name] : valueOfBind(b, c); }}; return i; }
// templates
struct Template { S match; std::function<bool(int)> matches; double priority; bool given; S mode, name; std::vector<int> level; Is body; };
static std::vector<Template> templates;
static std::map<S, Val> globals;
static S xml(const Template &t) {
  return "<xsl:template" + (t.match.empty() ? S() : " match=\"" + t.match + "\"") + (t.name.empty() ? S() : " name=\"" + t.name + "\"") + (t.mode.empty() ? S() : " mode=\"" + t.mode + "\"") +
         (t.given ? " priority=\"" + digits(t.priority) + "\"" : S()) + ">" + xml(t.body) + "</xsl:template>";
}
static bool higher(const std::vector<int> &a, const std::vector<int> &b) { // import precedence: the importer over the imported, later imports over earlier
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return a[i] > b[i];
  return a.size() < b.size();
}
static bool within(const std::vector<int> &a, const std::vector<int> &b) { return a.size() < b.size() && std::equal(a.begin(), a.end(), b.begin()); } // b is imported into a
static void apply(Cx c, Evs &o, const S &mode, const std::vector<int> *below) {
  const Template *best = 0;
  for (size_t i = 0; i < templates.size(); ++i) {
    const Template &t = templates[i];
    if (t.match.empty() || t.mode != mode || (below && !within(*below, t.level)) || !t.matches(c.node)) continue;
    if (!best || higher(t.level, best->level) || (t.level == best->level && t.priority >= best->priority)) best = &t;
  }
  if (best) { c.vars = globals; c.rule.any = true; c.rule.mode = mode; c.rule.level = best->level; run(best->body, c, o); return; }
  switch (T[c.node].kind) {
    case ROOT: case ELEM: {
      Set s = select(c.node, CHILD, ANY);
      for (size_t p = 0; p < s.size(); ++p) { Cx n = c; n.passed.clear(); n.node = s[p]; n.pos = p + 1; n.size = s.size(); apply(n, o, mode, 0); }
      break;
    }
    case TEXT: case ATTR: put(o, 't', "", T[c.node].value); break;
    default: break;
  }
}
static S xml(const std::vector<Bind> &w) { S s; for (size_t i = 0; i < w.size(); ++i) s += xml(w[i], "with-param"); return s; }
static std::map<S, Val> passing(const std::vector<Bind> &w, const Cx &c) { std::map<S, Val> r; for (size_t i = 0; i < w.size(); ++i) r[w[i].name] = valueOfBind(w[i], c); return r; }
static I applyTemplates(const E *e, const S &mode = "", const std::vector<Key> &k = std::vector<Key>(), const std::vector<Bind> &w = std::vector<Bind>()) {
  bool sel = e != 0; E x = sel ? *e : axis(CHILD, ANY);
  S in = xml(k) + xml(w), tag = "<xsl:apply-templates" + (sel ? " select=\"" + x.xml + "\"" : S()) + (mode.empty() ? S() : " mode=\"" + mode + "\"");
  I i = {in.empty() ? tag + "/>" : tag + ">" + in + "</xsl:apply-templates>", [=](Cx &c, Evs &o) {
    std::map<S, Val> p = passing(w, c);
    Set s = sorted(k, x.get(c).set, c);
    for (size_t j = 0; j < s.size(); ++j) { Cx n = c; n.passed = p; n.node = s[j]; n.pos = j + 1; n.size = s.size(); apply(n, o, mode, 0); }
  }};
  return i;
}
static I applyImports() { I i = {"<xsl:apply-imports/>", [](Cx &c, Evs &o) { Cx n = c; n.passed.clear(); apply(n, o, c.rule.mode, &c.rule.level); }}; return i; }
static I call(const S &name, const std::vector<Bind> &w = std::vector<Bind>()) {
  I i = {w.empty() ? "<xsl:call-template name=\"" + name + "\"/>" : "<xsl:call-template name=\"" + name + "\">" + xml(w) + "</xsl:call-template>", [=](Cx &c, Evs &o) {
    const Template *t = 0;
    for (size_t k = 0; k < templates.size(); ++k) if (templates[k].name == name && (!t || higher(templates[k].level, t->level))) t = &templates[k];
    Cx n = c; n.passed = passing(w, c); n.vars = globals; run(t->body, n, o);
  }};
  return i;
}
static Template rule(const S &match, const std::function<bool(int)> &matches, double priority, const Is &body, const S &mode = "") { Template t; t.match = match; t.matches = matches; t.priority = priority; t.given = false; t.mode = mode; t.body = body; return t; }
static Template function(const S &name, const Is &body) { Template t; t.name = name; t.priority = 0; t.given = false; t.body = body; return t; }
static bool isRoot(int n) { return T[n].kind == ROOT; }
static bool isElement(int n) { return T[n].kind == ELEM; }
static bool isA(int n) { return passes(n, SELF, NAME); }
// ---- running them
static S stylesheet(const S &top) { return "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" xmlns:p=\"u\">" + top + "</xsl:stylesheet>"; }
static S rules() { S s; for (size_t i = 0; i < templates.size(); ++i) if (templates[i].level.empty()) s += xml(templates[i]); return s; }
typedef std::unique_ptr<XSLT::Stylesheet<S, SA> > Compiled;
static Compiled compile(const S &top) {
  if (sheets.empty()) sheets.resize(1);
  sheets[0] = stylesheet(top);
  symx_note("%s", sheets[0].c_str());
  std::istringstream in("0");
  SAX::InputSource<S, SA> source(in);
  source.setSystemId("sheet:/0");
  XSLT::StylesheetCompiler<S, SA> compiler;
  Compiled c = compiler.compile(source);
  symx_note("%s", compiler.error().c_str());
  return c;
}
static void walk(const Node &n, Evs &out) {
  for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling())
    switch (c.getNodeType()) {
      case DOM::Node_base::TEXT_NODE: case DOM::Node_base::CDATA_SECTION_NODE: put(out, 't', "", c.getNodeValue()); break;
      case DOM::Node_base::COMMENT_NODE: put(out, 'c', "", c.getNodeValue()); break;
      case DOM::Node_base::PROCESSING_INSTRUCTION_NODE: put(out, 'p', c.getNodeName(), c.getNodeValue()); break;
      case DOM::Node_base::ELEMENT_NODE: {
        put(out, '<', c.hasNamespaceURI() ? c.getLocalName() : c.getNodeName(), "", c.getNamespaceURI());
        DOM::NamedNodeMap<S> m = c.getAttributes();
        for (size_t i = 0; i < m.getLength(); ++i) out.back().atts.insert(Att(std::make_pair(m.item(i).getNamespaceURI(), m.item(i).getLocalName()), m.item(i).getNodeValue()));
        walk(c, out);
        put(out, '>', "", ""); break;
      }
      default: symx_fail("the tree has only the kinds of nodes results have");
    }
}
static S show(const Evs &e) { S s; for (size_t i = 0; i < e.size(); ++i) { s += e[i].kind == '<' ? "<" + e[i].name : e[i].kind == '>' ? S("/") : e[i].kind == 't' ? "'" + e[i].value + "'" : S(1, e[i].kind) + e[i].name + "[" + e[i].value + "]"; for (std::set<Att>::const_iterator a = e[i].atts.begin(); a != e[i].atts.end(); ++a) s += " " + a->first.second + "=" + a->second; if (e[i].kind == '<') s += ">"; } return s; }
static Evs execute(XSLT::Stylesheet<S, SA> &s, S &messages, bool &threw) {
  XSLT::DOMSink<S, SA> sink;
  std::ostringstream err;
  s.set_output(sink); s.set_error_output(err);
  threw = false;
  try { s.execute(doc); } catch (const std::exception &e) { threw = true; symx_note("%s", e.what()); }
  messages = err.str();
  Evs got;
  if (sink.node() != 0) walk(sink.node(), got);
  return got;
}
static void check(XSLT::Stylesheet<S, SA> &s) { // against what the templates mean
  Evs want, got; S messages; bool threw;
  said.clear(); mixed = false;
  Cx c; c.node = 0; c.pos = c.size = 1; c.vars = globals;
  apply(c, want, "", 0);
  got = execute(s, messages, threw);
  symx_check(!threw, "stylesheets run");
  if (symx_replaying()) symx_note("got %s\nwant %s", show(got).c_str(), show(want).c_str());
  symx_check(got.size() == want.size(), "the result has as many parts");
  if (got.size() != want.size()) return;
  bool good = true;
  for (size_t i = 0; i < want.size(); ++i) good &= got[i].kind == want[i].kind && got[i].uri == want[i].uri && got[i].name == want[i].name && got[i].value == want[i].value && got[i].atts == want[i].atts;
  symx_check(good, "the result is what the stylesheet says");
  symx_check(mixed || messages == said, "messages are what the stylesheet says");
}
static void begin() { T.clear(); templates.clear(); globals.clear(); sheets.assign(1, S()); doc = impl().createDocument("", "", 0); add(-1, ROOT, "", "", "", doc); }
// ---- 0: instructions inside each other
static char letter() { char c = symx_char(); symx_assume((c > 32) & (c < 127) & (c != 45) & (c != 63)); return c; }
static void small() {
  int r = element(0, "a", false);
  int e = element(r, name(), false); attribute(e, "a", false, "1");
  node(e, TEXT, "", S(1, letter()));
  element(e, "c", false);
  if (symx_pick(2)) node(r, COMMENT, "", "k");
  int f = element(r, name(), symx_pick(2)); node(f, PI, "x", "y");
}
static Is probe() { return is(valueOf(position())) + is(valueOf(last())) + is(valueOf(current())); }
static E choice(int k) {
  switch (k) { case 0: return axis(CHILD, STAR); case 1: return axis(CHILD, ANY); case 2: return axis(PRECSIB, ANY); case 3: return none(); case 4: return axis(ANCSELF, ANY); default: return all(); }
}
static int depth;
static Is nest(int d) {
  if (d == 0) return probe();
  Is in = nest(d - 1), at = probe();
  switch (symx_pick(symx_param("KINDS", 14))) {
    case 0: { E e = choice(symx_pick(symx_param("SELECTS", 3))); return is(forEach(e, in)) + at; }
    case 1: { E e = choice(symx_pick(symx_param("SELECTS", 3))); S m(1, 'k' + d); templates.push_back(rule("node()", [](int n) { return T[n].kind != ROOT && T[n].kind != ATTR; }, -0.5, in, m)); templates.push_back(rule("/", isRoot, 0.5, in, m)); return is(applyTemplates(&e, m)) + at; }
    case 2: { S n(1, 'k' + d); templates.push_back(function(n, in)); return is(call(n)) + at; }
    case 3: return is(if_(axis(CHILD, STAR), in)) + at;
    case 4: return is(choose(axis(CHILD, TEXTS), probe(), axis(CHILD, ANY), in, is(say("-")))) + at;
    case 5: return is(lre("e", in)) + at;
    case 6: return is(elem(lit("f"), in)) + at;
    case 7: return is(copy(in)) + at;
    case 8: { S n(1, 'v' + d); return is(variable(bound(n, in))) + at + is(copyOf(var(n))) + is(valueOf(var(n))); }
    case 9: return is(lre("g", is(attribute("at", in)) + at)) + at;
    case 10: return is(comment(in)) + at;
    case 11: return is(pi("t", in)) + at;
    case 12: return is(message(in)) + at;
    default: { S n(1, 'v' + d); std::vector<Bind> w; w.push_back(bound("x", in)); templates.push_back(function(n, is(param(bound("x", lit("none")))) + is(copyOf(var("x"))) + is(valueOf(var("x"))))); return is(call(n, w)) + at; }
  }
}
static void programs() {
  begin();
  templates.push_back(rule("/", isRoot, 0.5, Is()));
  Is in = nest(symx_param("DEPTH", 2));
  E kids = axis(DESC, ANY);
  templates[0].body = is(lre("r", is(forEach(kids, in)) + probe()));
  Compiled c = compile(rules());
  symx_check(c.get() != 0, "stylesheets compile");
  if (!c.get()) return;
  small();
  check(*c);
  symx_reach("programs");
}
// ---- 1: sorting
static void sorting() {
  begin();
  Key k[2] = {{lit(""), false, false}, {lit(""), false, false}};
  int one = symx_pick(5), two = symx_pick(3);
  E x = {"@x", [](const Cx &c) { Set s = select(c.node, ATT, ANY); return s.empty() ? string("") : string(T[s[0]].value); }};
  E id = {"name()", [](const Cx &c) { return string(nameOf(c.node)); }};
  E dots = {"substring(., 1, 1)", [](const Cx &c) { return string(stringValue(c.node).substr(0, 1)); }};
  k[0].e = one == 0 || one == 4 ? x : one == 1 ? dots : one == 2 ? position() : id;
  k[1].e = two == 1 ? position() : dots;
  k[0].numeric = one == 0 || one == 2; k[0].descending = symx_pick(2); k[1].numeric = two == 1; k[1].descending = two && symx_pick(2);
  std::vector<Key> keys(k, k + (two ? 2 : 1));
  if (two == 2) { Key same = {lit("s"), false, false}; keys.insert(keys.begin() + 1, 2, same); } // more keys, which leave it to the last
  Is body = is(valueOf(concat(concat(id, x), concat(dots, position())))) + is(valueOf(last())); // which one this is, and where
  E from = axis(symx_pick(2) ? CHILD : PRECSIB, STAR);
  Is use = symx_pick(2) ? is(forEach(from, body, keys)) : is(applyTemplates(&from, "m", keys));
  if (from.xml[0] == 'p') use = is(forEach(axis(CHILD, ANY), is(if_(axis(SELF, TEXTS), use)))); // from the text at the end
  templates.push_back(rule("/", isRoot, 0.5, is(lre("r", is(forEach(axis(CHILD, STAR), use + probe()))))));
  templates.push_back(rule("*", isElement, -0.5, body, "m"));
  Compiled c = compile(rules());
  symx_check(c.get() != 0, "stylesheets compile");
  if (!c.get()) return;
  int r = element(0, "r", false);
  for (int i = 0; i < symx_param("SORTED", 3); ++i) {
    int e = element(r, one == 3 ? name() : S(1, (char)('p' + i)), false);
    if (one == 0) { int v = symx_pick(3); if (v) attribute(e, "x", false, v == 1 ? S(1, symx_in("012a", 4)) : S("-1")); }
    if (one == 4) attribute(e, "x", false, S(1, symx_in("ab", 2)) + (i == 1 ? S(1, symx_in("ab", 2)) : S()));
    if (one == 1 || two == 2) node(e, TEXT, "", S(1, symx_in("pq", 2)));
  }
  node(r, TEXT, "", "t");
  check(*c);
  symx_reach("sorting");
}
// ---- 2: which rule applies
struct Pattern { const char *text; double priority; bool (*matches)(int); };
static bool inA(int n) { return isA(n) && T[n].parent >= 0 && isA(T[n].parent); }
static bool isText(int n) { return T[n].kind == TEXT; }
static const Pattern patterns[] = {
  {"*", -0.5, isElement}, {"a", 0, isA}, {"a/a", 0.5, inA}, {"text()", -0.5, isText}, {"node()", -0.5, [](int n) { return T[n].kind != ROOT && T[n].kind != ATTR; }},
  {"p:*", -0.25, [](int n) { return passes(n, SELF, PSTAR); }}, {"@*", -0.5, [](int n) { return T[n].kind == ATTR; }}, {"a[1]", 0.5, [](int n) { if (!isA(n)) return false; for (int i = 0; i < n; ++i) if (T[i].parent == T[n].parent && isA(i)) return false; return true; }},
  {"/", 0.5, isRoot}, {"p:a", 0, [](int n) { return passes(n, SELF, PNAME); }}, {"comment()", -0.5, [](int n) { return T[n].kind == COMMENT; }}, {"processing-instruction('a')", 0, [](int n) { return passes(n, SELF, PIT); }}
};
static S imports(const char *which, const char *how) { S s; for (; *which; ++which) s += S("<xsl:") + how + " href=\"" + *which + "\"/>"; return s; }
static S rules(const std::vector<int> &level, size_t from = 0, size_t to = 99) { S s; for (size_t i = from; i < templates.size() && i < to; ++i) if (templates[i].level == level) s += xml(templates[i]); return s; }
static std::vector<int> level(int a = 0, int b = 0) { std::vector<int> l; if (a) l.push_back(a); if (b) l.push_back(b); return l; }
static void choosing() {
  begin();
  int how = symx_pick(3), n = how ? symx_param("RULES", 2) : 2; // priorities; import levels; includes, modes
  std::vector<S> text(5);
  for (int i = 0; i < n; ++i) {
    const Pattern &p = patterns[symx_pick(symx_param("PATTERNS", how ? 4 : 8))];
    E at = axis(ATT, ANY), kids = axis(CHILD, ANY);
    Template t = rule(p.text, p.matches, p.priority, is(words(S(1, (char)('A' + i)))));
    if (how == 0) { if (symx_pick(2)) { t.given = true; t.priority = (int)symx_pick(3) - 1; } }
    if (how == 1) switch (symx_pick(4)) { case 0: break; case 1: t.level = level(1); break; case 2: t.level = level(2); break; default: t.level = level(1, 1); }
    if (how == 2 && symx_pick(2)) t.mode = "m";
    switch (symx_pick(how == 1 ? 2 : how ? 3 : 1)) { case 0: t.body = t.body + is(applyTemplates(&at)) + is(applyTemplates(0)); break; case 1: t.body = t.body + (how == 1 ? is(applyImports()) : is(applyTemplates(0, "m"))) + is(words(S(1, (char)('a' + i)))); break; default: t.body = t.body + is(if_(axis(CHILD, ANY), is(applyTemplates(0)))); }
    templates.push_back(t);
  }
  S top;
  sheets.resize(5);
  if (how == 1) {
    top = imports("12", "import") + rules();
    sheets[1] = stylesheet(imports("3", "import") + rules(level(1))); sheets[2] = stylesheet(rules(level(2))); sheets[3] = stylesheet(rules(level(1, 1)));
  } else if (how == 2) { // the first is included, by something included
    top = symx_pick(2) ? imports("1", "include") + rules(level(), 1) : xml(templates[0]) + imports("2", "include");
    sheets[1] = stylesheet(imports("3", "include")); sheets[2] = stylesheet(rules(level(), 1)); sheets[3] = stylesheet(rules(level(), 0, 1));
  } else top = rules();
  Compiled c = compile(top);
  symx_check(c.get() != 0, "stylesheets compile");
  if (!c.get()) return;
  int r = element(0, name(), false); attribute(r, "a", false, "1");
  node(r, TEXT, "", "t");
  int e = element(r, name(), false); element(e, name(), false);
  element(r, how ? S("a") : name(), true); node(r, COMMENT, "", "k"); node(r, PI, "a", "y");
  check(*c);
  symx_reach("choosing");
}
// ---- 3: variables and parameters
static void variables() {
  begin();
  sheets.resize(3);
  S v(1, letter());
  bool given = symx_pick(2), imported = symx_pick(2);
  Bind g; int kind = symx_pick(6);
  Cx root; root.node = 0; root.pos = root.size = 1;
  switch (kind) {
    case 0: g = bound("g", count(axis(DESCSELF, ANY))); break;
    case 1: g = bound("g", is(words("G")) + is(variable(bound("l", lit("L")))) + is(valueOf(var("l")))); break;
    case 2: g = bound("g", concat(var("h"), lit("+"))); break;
    case 3: g = bound("g", is(call("f"))); break;
    case 4: g = bound("g", Is()); break;
    default: g = bound("g", is(lre("e", is(words("E")))) + is(lre("e", is(words("F"))))); break;
  }
  templates.push_back(rule("/", isRoot, 0.5, Is()));
  std::vector<Bind> with;
  int passed = symx_pick(5);
  switch (passed) {
    case 0: break;
    case 1: with.push_back(bound("p", var("g"))); break;
    case 2: with.push_back(bound("p", is(copyOf(var("g"))) + is(call("f")))); break;
    case 3: with.push_back(bound("q", lit("Q"))); with.push_back(bound("z", lit("Z"))); break; // one that is not declared, too
    case 4: with.push_back(bound("p", axis(CHILD, ANY))); with.push_back(bound("q", Is())); break;
  }
  Is show = is(words("(")) + is(valueOf(var("p"))) + is(words("/")) + is(copyOf(var("q"))) + is(words("/")) + is(valueOf(var("g"))) + is(if_(var("p"), is(words("!")))) + is(if_(var("q"), is(words("?")))) + is(words(")"));
  Is declare = is(param(bound("p", lit("P")))) + (symx_pick(2) ? is(param(bound("q", concat(var("p"), lit("-"))))) : is(param(bound("q", is(valueOf(var("p"))) + is(words("="))))));
  E kids = axis(CHILD, ANY);
  Is use;
  int how = symx_pick(4);
  switch (how) {
    case 0: use = is(call("t", with)); templates.push_back(function("t", declare + show)); break;
    case 1: use = is(applyTemplates(&kids, "", std::vector<Key>(), with)); templates.push_back(rule("*", isElement, -0.5, declare + show)); break;
    case 2: use = is(applyTemplates(&kids, "m", std::vector<Key>(), with)); templates.push_back(rule("c", [](int n) { return isElement(n) && T[n].local == "c"; }, 0, declare + show + is(call("t")), "m")); templates.push_back(function("t", declare + show)); break; // through the built-in rules, which pass nothing
    default: // what is declared inside is not seen outside
      use = is(variable(bound("p", lit("1")))) + is(forEach(kids, is(variable(bound("q", is(valueOf(var("p"))) + is(variable(bound("w", lit("2")))) + is(valueOf(var("w")))))) + is(variable(bound("g", lit("inner")))) + show)) + is(if_(var("g"), is(variable(bound("q", lit("3")))) + show)) + is(variable(bound("q", is(copyOf(var("g")))))) + show;
  }
  templates[0].body = is(lre("r", use + is(valueOf(var("g"))) + is(valueOf(var("h")))));
  templates.push_back(function("f", is(param(bound("p", lit("no")))) + is(words("[")) + is(valueOf(var("p"))) + is(valueOf(var("h"))) + is(words("]"))));
  Bind h = bound("h", lit("H")), h2 = bound("h", lit("imported")), g2 = bound("g", lit("overridden"));
  S top = imported ? imports("1", "import") : S();
  if (imported) sheets[1] = stylesheet(xml(g2, "variable") + (symx_pick(2) ? xml(h, "param") : S("")));
  bool hHere = !imported || sheets[1].find("\"h\"") == S::npos;
  top += xml(g, kind == 2 ? "param" : "variable");
  if (hHere) top += xml(h, "param"); // after what it is used in
  Compiled c = compile(top + rules());
  symx_check(c.get() != 0, "stylesheets compile");
  if (!c.get()) return;
  if (given) { switch (symx_pick(2)) { case 0: c->set_parameter("h", v); globals["h"] = string(v); break; default: c->set_parameter("h", true); globals["h"] = boolean(true); } } else globals["h"] = string("H");
  int r = element(0, name(), false); node(r, TEXT, "", "t"); element(r, "c", false);
  if (symx_pick(2)) element(r, "c", false);
  root.vars = globals; globals["g"] = valueOfBind(g, root);
  check(*c);
  check(*c); // and again
  symx_reach("variables");
}
// ---- 4: keys
static void keys() {
  begin();
  struct { const char *match; bool (*matches)(int); } m[] = {{"c", [](int n) { return isElement(n) && T[n].local == "c"; }}, {"@*", [](int n) { return T[n].kind == ATTR; }}, {"c|text()", [](int n) { return isText(n) || (isElement(n) && T[n].local == "c"); }}};
  struct Use { const char *use; std::vector<S> (*values)(int); } u[] = {
    {"@k", [](int n) { std::vector<S> r; for (unsigned i = n + 1; i < T.size(); ++i) if (T[i].parent == n && T[i].kind == ATTR) r.push_back(T[i].value); return r; }},
    {".", [](int n) { return std::vector<S>(1, stringValue(n)); }},
    {"string(.)", [](int n) { return std::vector<S>(1, stringValue(n)); }},
    {"d|@k", [](int n) { std::vector<S> r; for (unsigned i = n + 1; i < T.size(); ++i) if (T[i].parent == n && (T[i].kind == ATTR || (T[i].kind == ELEM && T[i].local == "d"))) r.push_back(stringValue(i)); return r; }},
    {"count(*)", [](int n) { return std::vector<S>(1, digits(select(n, CHILD, STAR).size())); }}
  };
  int n = 1 + symx_pick(2), km[2], ku[2];
  S top;
  for (int i = 0; i < n; ++i) { km[i] = symx_pick(3); ku[i] = symx_pick(5); top += S("<xsl:key name=\"k\" match=\"") + m[km[i]].match + "\" use=\"" + u[ku[i]].use + "\"/>"; }
  auto lookup = [=](const S &v) { Set s; for (unsigned i = 0; i < T.size(); ++i) for (int j = 0; j < n; ++j) if (m[km[j]].matches(i)) { std::vector<S> x = u[ku[j]].values(i); if (std::find(x.begin(), x.end(), v) != x.end()) s.push_back(i); } inOrder(s); return s; };
  int arg = symx_pick(3);
  E key = {arg == 0 ? "key('k', 'x')" : arg == 1 ? "key('k', 1)" : "key('k', //d)", [=](const Cx &) {
    if (arg < 2) return nodes(lookup(arg ? "1" : "x"));
    Set s;
    for (unsigned i = 0; i < T.size(); ++i) if (isElement(i) && T[i].local == "d") { Set t = lookup(stringValue(i)); s.insert(s.end(), t.begin(), t.end()); }
    return nodes(s);
  }};
  Is body = is(forEach(key, is(valueOf(position())) + is(valueOf(named())) + is(valueOf(dot())) + is(words(";")))) + is(valueOf(count(key)));
  templates.push_back(rule("/", isRoot, 0.5, is(lre("r", body + (symx_pick(2) ? is(forEach(axis(DESC, TEXTS), is(valueOf(count(key))))) : Is())))));
  Compiled c = compile(top + rules());
  symx_check(c.get() != 0, "stylesheets compile");
  if (!c.get()) return;
  int r = element(0, "r", false);
  int e = element(r, "c", false), a = attribute(e, "k", false, S(1, symx_in("x1", 2)));
  node(e, TEXT, "", S(1, symx_in("x1", 2)));
  int f = element(r, "c", false); attribute(f, "k", false, S(1, symx_in("x1", 2))); int d = element(f, "d", false); int t = node(d, TEXT, "", S(1, symx_in("x1", 2)));
  check(*c);
  T[a].node.setNodeValue("y"); T[a].value = "y"; // not the same any more
  if (symx_pick(2)) { T[t].node.setNodeValue("y"); T[t].value = "y"; }
  check(*c);
  symx_reach("keys");
}
// ---- 5: copies of anything
static void branch(int parent, int levels) {
  for (int i = symx_pick(symx_param("KIDS", 3)); i > 0; --i)
    switch (symx_pick(levels ? 5 : 4)) {
      case 0: { int t = node(parent, TEXT, "", S(1, letter())); if (symx_pick(2)) more(t, S(1, letter()), true); break; }
      case 1: node(parent, COMMENT, "", S(1, letter())); break;
      case 2: node(parent, PI, S(1, symx_in("ab", 2)), S(1, letter())); break;
      case 3: { int e = element(parent, name(), true); attribute(e, "b", symx_pick(2), S(1, letter())); break; }
      default: { int e = element(parent, name(), symx_pick(2)); if (symx_pick(2)) attribute(e, "c", false, S(1, letter())); branch(e, levels - 1); }
    }
}
static void copies() {
  begin();
  int how = symx_pick(5);
  E everything = {"@*|node()", [](const Cx &c) { Set s = select(c.node, ATT, ANY), t = select(c.node, CHILD, ANY); s.insert(s.end(), t.begin(), t.end()); return nodes(s); }}, kids = axis(CHILD, ANY);
  switch (how) {
    case 0: templates.push_back(rule("@*|node()|/", [](int) { return true; }, -0.5, is(copy(is(applyTemplates(&everything)))))); break;
    case 1: templates.push_back(rule("/", isRoot, 0.5, is(copyOf(dot())))); break;
    case 2: templates.push_back(rule("/", isRoot, 0.5, is(lre("r", is(copyOf(kids)))))); break;
    case 3: break; // only the built-in rules
    default: templates.push_back(rule("/", isRoot, 0.5, is(variable(bound("t", is(copyOf(dot()))))) + is(lre("r", is(copyOf(var("t"))) + is(attribute("late", is(say("x")))) + is(copyOf(var("t"))))) )); break;
  }
  Compiled c = compile(rules());
  symx_check(c.get() != 0, "stylesheets compile");
  if (!c.get()) return;
  if (symx_pick(2)) node(0, COMMENT, "", "k");
  int r = element(0, name(), symx_pick(2));
  if (symx_pick(2)) attribute(r, "a", symx_pick(2), S(1, letter()));
  branch(r, symx_param("LEVELS", 1));
  check(*c);
  symx_reach("copies");
}
// ---- 6: what goes wrong ends the run, and nothing else
static void circular() {
  begin();
  static const char *ways[] = {
    "<xsl:variable name=\"g\" select=\"$g\"/>", "<xsl:variable name=\"g\" select=\"$h\"/><xsl:variable name=\"h\" select=\"$g\"/>",
    "<xsl:variable name=\"g\"><xsl:call-template name=\"f\"/></xsl:variable>",
    "<xsl:variable name=\"h\"><xsl:call-template name=\"f\"/></xsl:variable><xsl:param name=\"g\" select=\"$h\"/>"};
  int way = symx_pick(4);
  S top = ways[way] + S("<xsl:template name=\"f\"><xsl:param name=\"p\" select=\"$g\"/><xsl:value-of select=\"$p\"/></xsl:template><xsl:template match=\"/\"><xsl:call-template name=\"f\"/></xsl:template>");
  for (int again = 0; again < 2; ++again) {
    Compiled c = compile(top);
    if (!c.get()) { symx_reach("failures"); return; }
    begin();
    element(0, "r", false);
    S messages; bool threw;
    for (int i = 0; i < 2; ++i) {
      execute(*c, messages, threw);
      symx_check(threw, "variables which depend on themselves are refused");
    }
  }
  symx_reach("failures");
}
static void failures() {
  if (symx_pick(2)) { circular(); return; }
  begin();
  E bad = {"$nothing", [](const Cx &) { return string(""); }};
  S wrong, what;
  bool late = true; // only found out when run
  switch (symx_pick(9)) {
    case 0: wrong = "<xsl:value-of select=\"$nothing\"/>"; break;
    case 1: wrong = "<xsl:message terminate=\"yes\">stop</xsl:message>"; break;
    case 2: wrong = "<xsl:call-template name=\"nothing\"/>"; break;
    case 3: wrong = "<xsl:value-of select=\"key('nothing', 'x')\"/>"; break;
    case 4: wrong = "<xsl:variable name=\"t\"><e/></xsl:variable><xsl:for-each select=\"$t/e\">x</xsl:for-each>"; break;
    case 5: wrong = "<xsl:value-of select=\"nothing()\"/>"; break;
    case 6: wrong = "<xsl:variable name=\"t\"><xsl:message terminate=\"yes\">stop</xsl:message></xsl:variable>"; break;
    case 7: wrong = "<xsl:for-each select=\"1\">x</xsl:for-each>"; break;
    case 8: wrong = "<xsl:variable name=\"x\" select=\"1\"/><xsl:variable name=\"x\" select=\"1\"/>"; break;
  }
  int where = symx_pick(4);
  const char *in[][2] = {{"", ""}, {"<xsl:for-each select=\"*\">", "</xsl:for-each>"}, {"<xsl:comment>", "</xsl:comment>"}, {"<e><xsl:attribute name=\"a\">", "</xsl:attribute></e>"}};
  S top = "<xsl:template match=\"/\"><r><xsl:apply-templates select=\"r/c\" mode=\"m\"/><xsl:value-of select=\"position()\"/></r></xsl:template>"
          "<xsl:template match=\"c\" mode=\"m\"><xsl:if test=\". = 'x'\">" + S(in[where][0]) + wrong + in[where][1] + "</xsl:if><k><xsl:value-of select=\".\"/></k></xsl:template>";
  long live = symx_live();
  for (int again = 0; again < 2; ++again) {
    Compiled c = compile(top);
    if (!c.get()) { symx_reach("failures"); return; } // found out early
    begin();
    int r = element(0, "r", false), e = element(r, "c", false), t = node(e, TEXT, "", S(1, symx_in("xy", 2)));
    element(e, "d", false);
    e = element(r, "c", false); node(e, TEXT, "", S(1, symx_in("xy", 2)));
    bool fails = T[t].value == "x" || stringValue(e) == "x";
    if (where == 1 && T[t].value != "x") fails = false; // nothing to do it for
    S messages; bool threw;
    execute(*c, messages, threw);
    symx_check(threw == fails, "a run fails if something goes wrong, and not otherwise");
    T[t].node.setNodeValue("y"); Node(T[e].node).getFirstChild().setNodeValue("y");
    Evs want, got = execute(*c, messages, threw);
    put(want, '<', "r", ""); for (int i = 0; i < 2; ++i) { put(want, '<', "k", ""); put(want, 't', "", "y"); put(want, '>', "", ""); } put(want, 't', "", "1"); put(want, '>', "", "");
    symx_check(!threw && show(got) == show(want) && messages.empty(), "what went wrong before has no effect");
    symx_reach("failures");
  }
}
// ---- 7: nothing is left behind
static void leaks() {
  long live = 0;
  int kind = symx_pick(4);
  for (int i = 0; i < 3; ++i) {
    {
      begin();
      templates.push_back(rule("/", isRoot, 0.5, is(lre("r", is(variable(bound("l", is(call("f"))))) + is(copyOf(var("l"))) + is(valueOf(var("g"))) + is(applyTemplates(0)))) ));
      templates.push_back(function("f", is(lre("e", probe()))));
      if (kind == 1) templates.push_back(rule("c", isA, 0, is(message(is(words("m"))))));
      S top = "<xsl:key name=\"k\" match=\"c\" use=\".\"/><xsl:variable name=\"g\"><xsl:value-of select=\"count(key('k', 't'))\"/></xsl:variable><xsl:param name=\"h\" select=\"$g\"/>";
      if (kind == 2) top += "<xsl:template match=\"c\"><xsl:value-of select=\"$nothing\"/></xsl:template>";
      if (kind == 3) top += "<xsl:template match=\"c\"><xsl:nothing/></xsl:template>";
      Compiled c = compile(top + rules());
      int r = element(0, "r", false); node(element(r, "c", false), TEXT, "", "t");
      if (c.get()) { c->set_parameter("h", "given"); S m; bool threw; for (int k = 0; k < 2; ++k) execute(*c, m, threw); }
      begin(); sheets.clear(); T.clear(); templates.clear(); doc = DOM::Document<S>();
      sheets.shrink_to_fit(); T.shrink_to_fit(); templates.shrink_to_fit();
    }
    if (i == 1) live = symx_live();
  }
  symx_check(symx_live() == live && parsers == 0, "nothing is left behind");
  symx_reach("leaks");
}
// ---- 8: names in namespaces, however they are made
static void names() {
  begin();
  std::map<S, S> scope, alias;
  scope["p"] = "u";
  S top, open, close;
  int where = symx_pick(3), other = symx_pick(symx_param("ALIASES", 6));
  if (where == 1) { scope[""] = "d"; scope["p"] = "w"; scope["q"] = "u"; open = "<o xmlns=\"d\" xmlns:p=\"w\" xmlns:q=\"u\">"; }
  if (where == 2) { scope[""] = ""; scope["q"] = "w"; open = "<o xmlns=\"d\" xmlns:q=\"w\"><o xmlns=\"\">"; }
  const char *aliases[] = { "", "xmlns:q=\"v\" stylesheet-prefix=\"p\" result-prefix=\"q\"", "stylesheet-prefix=\"p\" result-prefix=\"#default\"", "xmlns=\"d\" stylesheet-prefix=\"p\" result-prefix=\"#default\"", "xmlns=\"d\" stylesheet-prefix=\"#default\" result-prefix=\"p\"", "xmlns:q=\"w\" stylesheet-prefix=\"q\" result-prefix=\"p\"" };
  const char *from[] = { "", "u", "u", "u", "d", "w" }, *to[] = { "", "v", "", "d", "u", "u" };
  if (other) { top = S("<xsl:namespace-alias ") + aliases[other] + "/>"; alias[from[other]] = to[other]; }
  auto literal = [=](const S &u) { std::map<S, S>::const_iterator a = alias.find(u); return a == alias.end() ? u : a->second; };
  auto prefixed = [](const S &p, const S &l) { return p.empty() ? l : p + ":" + l; };
  auto uriOf = [=](const S &p) { std::map<S, S>::const_iterator i = scope.find(p); return i == scope.end() ? S() : i->second; };
  E self = {".", [](const Cx &c) { return string(stringValue(c.node)); }};
  static const char *prefixes[] = { "", "p", "q" };
  int form = symx_pick(4), also = symx_pick(5); // literal; no namespace; a namespace; a namespace worked out
  S ep = prefixes[symx_pick(3)], ap = also ? prefixes[symx_pick(3)] : "";
  bool bad = false;
  if (!scope.count(ep) && !ep.empty()) { if (!form) return; bad |= form == 1; }
  if (!scope.count(ap) && !ap.empty()) { if (also == 1) return; bad |= also == 2; }
  S given = symx_pick(2) ? "u" : "";
  S eu = form == 0 ? literal(uriOf(ep)) : form == 1 ? uriOf(ep) : form == 2 ? given : S("*");
  S au = also == 1 ? (ap.empty() ? S() : literal(uriOf(ap))) : also == 2 ? (ap.empty() ? S() : uriOf(ap)) : also == 3 ? given : S("*");
  I made;
  S tail = form == 0 ? prefixed(ep, "e") : S("xsl:element");
  made.xml = form == 0 ? "<" + tail + (also == 1 ? " " + prefixed(ap, "a") + "=\"{.}{{" + S(")") + "\"" : S()) + " b=\"1\">" : "<xsl:element name=\"" + prefixed(ep, form == 1 ? "{concat('e', '')}" : "e") + "\"" + (form == 2 ? " namespace=\"" + given + "\"" : form == 3 ? S(" namespace=\"{.}\"") : S()) + ">";
  if (also == 1 && form) return;
  if (also > 1) made.xml += "<xsl:attribute name=\"" + prefixed(ap, "{'a'}") + "\"" + (also == 3 ? " namespace=\"" + given + "\"" : also == 4 ? S(" namespace=\"{.}\"") : S()) + ">t</xsl:attribute>";
  made.xml += "<xsl:element name=\"p:k\"/>" + S("</") + tail + ">";
  made.run = [=](Cx &c, Evs &o) {
    S v = str(self.get(c));
    put(o, '<', "e", "", eu == "*" ? v : eu);
    if (form == 0) { if (also == 1) attr(o, "a", v + "{)", au); attr(o, "b", "1"); }
    if (also > 1) attr(o, "a", "t", au == "*" ? v : au);
    put(o, '<', "k", "", uriOf("p")); put(o, '>', "", ""); put(o, '>', "", "");
  };
  if (where) {
    I out; Is in = is(made); S inner = made.xml;
    out.xml = open + inner + (where == 2 ? "</o></o>" : "</o>");
    out.run = [=](Cx &c, Evs &o) { put(o, '<', "o", "", literal("d")); if (where == 2) put(o, '<', "o", "", ""); run(in, c, o); if (where == 2) put(o, '>', "", ""); put(o, '>', "", ""); };
    made = out;
  }
  templates.push_back(rule("/", isRoot, 0.5, is(lre("r", is(forEach(axis(DESC, TEXTS), is(made)))))));
  Compiled c = compile(top + rules());
  if (!c.get()) symx_check(bad, "stylesheets compile");
  if (!c.get()) return;
  int r = element(0, "r", false);
  node(r, TEXT, "", S(1, symx_in("uwd", 3)) + (symx_pick(2) ? "" : "x"));
  if (bad) { S m; bool threw; execute(*c, m, threw); symx_check(threw, "names need their prefixes declared"); symx_reach("undeclared"); return; }
  check(*c);
  symx_reach("names");
}
extern "C" void symx_main(void) {
  symx_locale();
  SAX::InputSourceResolver::registerResolver("sheet", resolve);
  script = parse;
  int part = symx_pick(9), only = symx_param("ONLY", -1);
  if (only >= 0) symx_assume(part == only);
  switch (part) { case 0: programs(); break; case 1: sorting(); break; case 2: choosing(); break; case 3: variables(); break; case 4: keys(); break; case 5: copies(); break; case 6: failures(); break; case 7: leaks(); break; default: names(); }
}
