// C23: match patterns (XSLT 1.0 sections 5.2 and 5.5) and attribute value templates (section 7.6.2).
#include <iostream>
#include <cstring>
#include "symx_locale.h"
#include "xpsteps.h"
#include "xpgrammar.h"
typedef std::vector<XPath::MatchExpr<S> > Matches;
static bool matches(const XPath::MatchExpr<S> &m, int n) {
  XPath::ExecutionContext<S> x; x.setVariableResolver(V);
  return m.evaluate(T[n].node, x);
}
struct Pattern { int start, n; Step s[3]; bool deep[3]; S text; };
static S writeStep(const Step &s, int how) { // abbreviated, in full, or in full with whitespace
  const char *w = how == 2 ? " " : "";
  return w + (how ? S(axisName[s.ax]) + w + "::" + w : s.ax == ATT ? S("@") : S()) + (how == 2 && s.test == ANY ? "node ( )" : testName[s.test]) + w + predText[s.p] + w + predText[s.q];
}
static Pattern pattern(int n, int start, int how, int preds, int second, int tests) {
  static const int ts[] = {NAME, ANY, STAR, TEXTS, PNAME, PSTAR, PIT, PIS, COMMENTS};
  Pattern p; p.start = start; p.n = n; p.text = start == 1 ? "/" : start == 2 ? "//" : "";
  for (int i = 0; i < n; ++i) {
    Step s; bool last = i + 1 == n;
    s.ax = (n == 1 || last) && symx_pick(2) ? ATT : CHILD; s.test = ts[symx_pick(last ? tests : 2)];
    s.p = symx_pick(last ? preds : symx_param("EARLIER", 4)); s.q = s.p && last && second ? symx_pick(second) : NONE;
    p.s[i] = s; p.deep[i] = i && symx_pick(2);
    if (i) p.text += p.deep[i] ? "//" : "/";
    p.text += writeStep(s, how);
  }
  return p;
}
// what evaluating it from c would select
static Set evaluate(const Pattern &p, int c) {
  Set s(1, p.start ? 0 : c);
  if (p.start == 2) s = all(s);
  for (int i = 0; i < p.n; ++i) { if (p.deep[i]) s = all(s); s = apply(s, p.s[i]); }
  return s;
}
static double priority(const Pattern &p) {
  if (p.start || p.n > 1 || p.s[0].p) return 0.5;
  switch (p.s[0].test) { case NAME: case PNAME: case PIT: return 0; case PSTAR: return -0.25; }
  return -0.5;
}
static void check(const Pattern &p, const XPath::MatchExpr<S> &m) {
  std::vector<bool> want(T.size());
  for (unsigned c = 0; c < T.size(); ++c) { Set s = evaluate(p, c); for (unsigned i = 0; i < s.size(); ++i) want[s[i]] = want[s[i]] || under(s[i], c); }
  for (unsigned n = 0; n < T.size(); ++n) {
    bool got = matches(m, n);
    if (got != want[n]) symx_note("%s, node %d, $n = %g", p.text.c_str(), n, N);
    symx_check(got == want[n], "a node matches a pattern exactly when some ancestor or the node itself would select it");
  }
  if (m.priority() != priority(p)) symx_note("%s: %g", p.text.c_str(), m.priority());
  symx_check(m.priority() == priority(p), "a pattern has the default priority of its form");
}
static void patterns() {
  tree();
  int n = 1 + symx_pick(symx_param("STEPS", 2)), start = symx_pick(3);
  Pattern p = pattern(n, start, n == 1 ? symx_pick(3) : mode % 3, n == 1 ? (int)PREDS : symx_param("LATER", 4), n == 1 ? symx_param("SECOND", 4) : 0, n == 1 ? 9 : symx_param("TESTS", 2));
  Matches m = xp->compile_match(p.text);
  symx_check(m.size() == 1, "one pattern without alternatives");
  check(p, m[0]);
  symx_reach(n == 1 ? "step" : "path");
}
static void alternatives() {
  tree();
  int n = 2 + symx_pick(symx_param("ALTERNATIVES", 1)); bool space = symx_pick(2); // a root pattern among them, too
  Pattern p[3]; S text; int root = symx_pick(n + 1);
  for (int i = 0; i < n; ++i) {
    if (i == root) p[i].text = "/"; else p[i] = pattern(1, 0, space ? 2 : 0, 3, 0, 5);
    text += (i ? "|" : "") + S(space ? " " : "") + p[i].text + S(space ? " " : "");
  }
  Matches m = xp->compile_match(text);
  symx_check((int)m.size() == n, "as many matches as alternatives");
  for (int i = 0; i < n; ++i)
    if (i != root) check(p[i], m[i]);
    else {
      for (unsigned k = 0; k < T.size(); ++k) symx_check(matches(m[i], k) == (k == 0), "/ matches the root alone");
      symx_check(m[i].priority() == 0.5, "/ has priority 0.5");
    }
  symx_reach("alternatives");
}
static void grammar() {
  static const char *const before[] = {"", "a", "a[", "/", "child", "@", "//a", "text", " "};
  static const char *const after[] = {"", "", "]", "", "a", "", "|a", ")", " "};
  int k = symx_pick(symx_param("CONTEXTS", 9)), n = symx_param("N", 3) - (k >= symx_param("DEEP", 2) ? 1 : 0);
  static const char alphabet[] = "a1/@*[:]( |.)-";
  S s = before[k];
  for (int i = 0; i < n; ++i) s += symx_in(alphabet, sizeof alphabet - 1);
  s += after[k];
  bool good = isPattern(s);
  long live = symx_live();
  bool syntax = false;
  try { xp->compile_match(s); } catch (const XPath::SyntaxException &) { syntax = true; } catch (const XPath::UndefinedFunctionException &) { }
  if (good == syntax) symx_note("%s", s.c_str());
  symx_check(good != syntax, "a pattern compiles exactly when the grammar has it");
  symx_check(symx_live() == live, "compiling leaves nothing behind");
  symx_reach(good ? "pattern" : "refused");
}
static S evaluateTemplate(const S &t, int c) {
  XPath::ExecutionContext<S> x; x.setVariableResolver(V);
  return xp->compile_attribute_value_template(t).evaluateAsString(T[c].node, x);
}
static char plain() { char c = symx_char(); symx_assume(c != '{' && c != '}' && c != '\'' && c != 0); return c; }
static void templates() {
  T.clear(); doc = impl().createDocument("", "", 0);
  int e = element(add(-1, ROOT, "", "", "", doc), "a", false); S v(1, plain()); attribute(e, "a", false, v);
  S t, want; int n = 1 + symx_pick(symx_param("PIECES", 3));   // the library refuses "" (and its tests want that)
  for (int i = 0; i < n; ++i) switch (symx_pick(9)) {
    case 0: { char c = plain(); t += c; want += c; break; }
    case 1: t += "{{"; want += "{"; break;
    case 2: t += "}}"; want += "}"; break;
    case 3: { char c = plain(); t += S("{'") + c + "'}"; want += c; break; }
    case 4: t += "{@a}"; want += v; break;
    case 5: t += "{ nope }"; break;
    case 6: t += "{'}'}"; want += "}"; break;
    case 7: t += "{concat('{', count(@*))}"; want += "{1"; break;
    case 8: t += " \xc3\xa9\n"; want += " \xc3\xa9\n"; break;
  }
  S got = evaluateTemplate(t, e);
  if (got != want) symx_note("%s", t.c_str());
  symx_check(got == want, "a template gives its text and the strings of its expressions");
  symx_reach("template");
}
static bool isTemplate(const S &s) {
  for (unsigned i = 0; i < s.size(); ) {
    if (s[i] == '}') { if (i + 1 == s.size() || s[i + 1] != '}') return false; i += 2; }
    else if (s[i] != '{') ++i;
    else if (i + 1 < s.size() && s[i + 1] == '{') i += 2;
    else {
      unsigned e = i + 1; char q = 0;
      for (; e < s.size() && (q || s[e] != '}'); ++e) if (q) { if (s[e] == q) q = 0; } else if (s[e] == '\'' || s[e] == '"') q = s[e];
      if (e == s.size() || !isExpr(s.substr(i + 1, e - i - 1))) return false;
      i = e + 1;
    }
  }
  return true;
}
static void templateGrammar() {
  static const char *const before[] = {"", "{", "{'"}, *const after[] = {"", "}", "'}"};
  int k = symx_pick(3), n = symx_param("M", 4);
  S s = before[k];
  for (int i = 0; i < n; ++i) s += symx_in("{}'1a ", 6);
  s += after[k];
  bool good = isTemplate(s);
  long live = symx_live();
  bool syntax = false;
  try { xp->compile_attribute_value_template(s); } catch (const XPath::SyntaxException &) { syntax = true; }
  if (good == syntax) symx_note("%s", s.c_str());
  symx_check(good != syntax, "a template compiles exactly when its braces pair and hold expressions");
  symx_check(symx_live() == live, "compiling leaves nothing behind");
  symx_reach(good ? "well formed" : "ill formed");
}
void symx_main() {
  symx_locale();
  xp = new XPath::XPath<S>; xp->setNamespaceContext(nsContext);
  // what is made on first use
  const char *const warm[] = {"a", "a[1]|@a", "a]", "a[b()]"};
  for (int i = 0; i < 4; ++i) {
    try { xp->compile_match(warm[i]); } catch (const std::exception &) { }
    try { xp->compile_attribute_value_template(i & 1 ? "{" : "{concat('a', a, 1)}{{}}"); } catch (const std::exception &) { }
  }
  N = number(); V.n = XPath::NumericValue<S>::createValue(N);
  int only = symx_param("ONLY", -1);
  switch (only >= 0 ? only : (int)symx_pick(5)) {
    case 0: patterns(); break;
    case 1: alternatives(); break;
    case 2: grammar(); break;
    case 3: templates(); break;
    default: templateGrammar();
  }
}
