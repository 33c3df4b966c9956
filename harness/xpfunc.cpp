// C18: XPath functions, arithmetic and conversions against XPath 1.0's definitions.
#include <iostream>
#include <cstring>
#include <cfloat>
#include <cmath>
#include "symx.h"
#include "symx_locale.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <XPath/XPath.hpp>
using namespace Arabica;
typedef std::string S;
static double anyDouble(int bytes = 8) { unsigned char b[8]; for (int i = 0; i < 8; ++i) b[i] = i < 8 - bytes ? 0 : symx_byte(); double d; memcpy(&d, b, 8); return d; }
// halves around the string's positions and every extreme, the choice left to the solver
static double someDouble() {
  static const double t[] = {-HUGE_VAL, -1e300, -4294967296.0, -3, -2.5, -2.4999999999999996, -2, -1.5, -1, -0.75, -0.5, -0.49999999999999994, -1e-300, -0.0, 0, 1e-300, 0.25, 0.49999999999999994, 0.5, 0.75, 1, 1.25, 1.5, 1.7, 2, 2.4999999999999996, 2.5, 3, 3.4999999999999996, 3.5, 4, 4.5, 5, 5.5, 6, 7,
    4294967296.0, 2147483648.0, 2147483647.0, 9007199254740993.0, 1e19, 1e300, HUGE_VAL, NAN};
  return t[symx_choose(sizeof t / sizeof *t)];
}
static bool sameNumber(double a, double b) { return a == b || (a != a && b != b); }
static bool negative(double d) { unsigned long long u; memcpy(&u, &d, 8); return u >> 63; }
struct Vars : XPath::VariableResolver<S> {
  XPath::XPathValue<S> s, t, u, a, b;
  XPath::XPathValue<S> resolveVariable(const S &, const S &n) const { return n == "s" ? s : n == "t" ? t : n == "u" ? u : n == "a" ? a : b; }
};
static Vars V;
static XPath::XPath<S> *xp;
static DOM::Document<S> *doc;
static XPath::XPathValue<S> str(const S &s) { return XPath::StringValue<S>::createValue(s); }
static XPath::XPathValue<S> num(double d) { return XPath::NumericValue<S>::createValue(d); }
static XPath::XPathExpression<S> e(const char *s) { return xp->compile_expr(s); }
static XPath::XPathValue<S> run(const XPath::XPathExpression<S> &x) { XPath::ExecutionContext<S> c; c.setVariableResolver(V); return x.evaluate(*doc, c); }
static S chars(unsigned n) { S s; for (unsigned i = 0; i < n; ++i) { char c = symx_char(); symx_assume(c != 0); s += c; } return s; }

static void rounding() {
  auto fr = e("round($a)"), ff = e("floor($a)"), fc = e("ceiling($a)");
  unsigned k = symx_pick(3);
  double x = k ? anyDouble() : symx_pick(2) ? anyDouble(2) : someDouble(); V.a = num(x);
  double r = run(k == 0 ? fr : k == 1 ? ff : fc).asNumber();
  if (x != x) symx_check(r != r, "rounding not-a-number gives not-a-number");
  else if (x - x != 0) symx_check(r == x, "rounding an infinity gives it back");
  else {
    symx_check(std::floor(r) == r, "a rounded number is whole");
    if (k == 0) symx_check(r - x <= 0.5 && x - r < 0.5, "round gives the nearest whole number, the greater of two");
    if (k == 1) symx_check(r <= x && (r + 1 > x || r == x), "floor gives the greatest whole number not above");
    if (k == 2) symx_check(r >= x && (r - 1 < x || r == x), "ceiling gives the least whole number not below");
    if (r == 0 && k != 1) symx_check(negative(r) == negative(x), "a number rounded to zero keeps its sign");
  }
  symx_reach("rounded");
}
static double rnd(double x) { double f = std::floor(x); return x - f < 0.5 ? f : f + 1; }
static void substring() {
  auto f2 = e("substring($s, $a)"), f3 = e("substring($s, $a, $b)");
  unsigned n = symx_pick(symx_param("SUB", 3) + 1);
  S s = chars(n), want;
  bool two = symx_pick(2);
  double a = symx_param("FP", 0) ? anyDouble(symx_param("FP", 0)) : someDouble(), end = 0; V.s = str(s); V.a = num(a);
  if (!two) { double b = someDouble(); V.b = num(b); end = rnd(a) + rnd(b); }
  S got = run(two ? f2 : f3).asString();
  for (unsigned i = 1; i <= n; ++i) if (a < i + 0.5 && (two || i < end)) want += s[i - 1];
  symx_check(got == want, "substring gives the characters at the positions asked for");
  symx_reach("substring");
}
static void arithmetic() {
  static const char *const ops[] = {"$a + $b", "$a - $b", "$a * $b", "$a div $b", "-$a"};
  unsigned k = symx_pick(6);
  if (k == 5) {
    static const double t[] = {0, -0.0, 1, -1, 1.5, -1.5, 5, -5, 2, -2, 3, 0.1, 1e300, 4294967296.0, 1e19, 5e-324, HUGE_VAL, -HUGE_VAL, NAN};
    double a = t[symx_pick(19)], b = t[symx_pick(19)];
    V.a = num(a); V.b = num(b);
    double r = run(e("$a mod $b")).asNumber();
    symx_note("%g mod %g = %g", a, b, r);
    if (a != a || b != b || a - a != 0 || b == 0) symx_check(r != r, "mod of or by what has no remainder is not a number");
    else if (b - b != 0) symx_check(r == a, "mod by an infinity gives the dividend");
    else {
      symx_check(std::fabs(r) < std::fabs(b) && (r == 0 || negative(r) == negative(a)), "mod is smaller than the divisor and has the dividend's sign");
      if (std::fabs(a / b) < 1e15) { long double q = ((long double)a - r) / b; symx_check(std::fabs((double)(q - (long double)(long long)(q + (q < 0 ? -0.5L : 0.5L)))) < 1e-3, "mod differs from the dividend by a multiple of the divisor"); }
    }
    symx_reach("mod");
    return;
  }
  auto x = e(ops[k]);
  double a = anyDouble(k == 2 || k == 3 ? 3 : 8), b = anyDouble(k == 2 || k == 3 ? 3 : 8); V.a = num(a); V.b = num(b);
  double want = k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : k == 3 ? a / b : -a;
  double r = run(x).asNumber();
  symx_check(sameNumber(r, want), "arithmetic is IEEE 754's");
  symx_reach("arithmetic");
}
// the value of a string, by XPath's Number grammar
static double value(const S &s) {
  unsigned i = 0, n = s.size();
  while (i < n && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i;
  bool neg = i < n && s[i] == '-'; if (neg) ++i;
  double v = 0, scale = 1; bool digit = false;
  while (i < n && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i++] - '0'); digit = true; }
  if (i < n && s[i] == '.') { ++i; while (i < n && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i++] - '0'); scale *= 10; digit = true; } }
  while (i < n && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i;
  if (!digit || i < n) return NAN;
  return neg ? -(v / scale) : v / scale;
}
static void toNumber() {
  auto f = e("number($s)"), g = e("$s + 0");
  S s;
  if (symx_pick(2)) { unsigned n = symx_pick(symx_param("NUM", 4) + 1); for (unsigned i = 0; i < n; ++i) s += symx_in("05.-+e \n", 8); }
  else { static const char *const t[] = {"inf", "nan", "infinity", "NaN", "-Infinity", "1e5", "0x10", "1 2", "- 1", "--1", "1.5.", "1,5", "1d", "12345678", "0000001", "-.5", "5.", "1f"}; s = t[symx_pick(18)]; }
  V.s = str(s);
  double want = value(s), got = run(symx_pick(2) ? f : g).asNumber();
  symx_check(sameNumber(got, want), "a string becomes the number it spells, or not-a-number");
  if (want == want) symx_reach("numeric"); else symx_reach("not numeric");
}
static void literal() {
  S s; unsigned n = 1 + symx_pick(3);
  for (unsigned i = 0; i < n; ++i) s += symx_in("05.", 3);
  double want = value(s);
  bool ok = true; double got = 0;
  try { got = xp->compile_expr(s).evaluateAsNumber(*doc); } catch (const XPath::SyntaxException &) { ok = false; }
  if (s == "." || s == "..") return;
  symx_check(ok == (want == want), "a number in an expression is digits with at most one point");
  if (ok) symx_check(got == want, "a number in an expression has the value it spells");
  symx_reach("literal");
}
static bool plain(const S &s) {
  unsigned i = s[0] == '-' ? 1 : 0, n = s.size(), d = 0;
  if (i + 1 < n && s[i] == '0' && s[i + 1] != '.') return false;
  for (; i < n && isdigit(s[i]); ++i) ++d;
  if (!d) return false;
  if (i == n) return true;
  if (s[i++] != '.' || i == n || s[n - 1] == '0') return false;
  for (; i < n; ++i) if (!isdigit(s[i])) return false;
  return true;
}
static void toString() {
  double v; S want;
  if (symx_pick(2)) {
    unsigned k = symx_pick(symx_param("K", 130)); int j = symx_pick(8);
    static const int tens[] = {0, 1, 2, 3, 7, 12, -1, -20};
    double p = 1; for (int i = 0; i < std::abs(tens[j]); ++i) p *= 10;
    v = tens[j] < 0 ? k * p : k / p;
    if (tens[j] < 0 && k) { std::ostringstream os; os << k; want = os.str() + S(-tens[j], '0'); }
    else {
      std::ostringstream os; os << k; want = os.str();
      if (tens[j] > 0) { if ((int)want.size() <= tens[j]) want = S(tens[j] + 1 - want.size(), '0') + want; want.insert(want.size() - tens[j], "."); while (want[want.size() - 1] == '0') want.erase(want.size() - 1); if (want[want.size() - 1] == '.') want.erase(want.size() - 1); }
    }
    if (symx_pick(2)) { v = -v; if (k) want = "-" + want; }
  } else {
    static const double t[] = {1.0 / 3, 2.0 / 3, 0.1 + 0.2, DBL_MAX, DBL_MIN, 5e-324, 9007199254740993.0, 1e15, 1e15 + 1, 999999999999999.0, 1e15 + 0.5, 123456789.123456789, 4294967296.5, 1e-7, 1e21, 1.7976931348623155e308, 2.2250738585072011e-308, HUGE_VAL, NAN};
    v = t[symx_pick(19)];
    if (symx_pick(2)) v = -v;
  }
  V.a = num(v);
  S got = run(e(symx_pick(2) ? "string($a)" : "concat($a, '')")).asString();
  symx_note("%.17g -> %s (%s)", v, got.c_str(), want.c_str());
  if (v != v) symx_check(got == "NaN", "not-a-number is written NaN");
  else if (v - v != 0) symx_check(got == (v > 0 ? "Infinity" : "-Infinity"), "an infinity is written Infinity");
  else {
    if (!want.empty()) symx_check(got == want, "a number is written in decimal with no more digits than it needs");
    symx_check(plain(got), "a number is written without exponent or needless zeros");
    symx_check(strtod(got.c_str(), 0) == v, "a written number reads back as itself");
    S sig; for (unsigned i = 0; i < got.size(); ++i) if (isdigit(got[i])) sig += got[i];
    while (sig.size() > 1 && sig[0] == '0') sig.erase(0, 1);
    while (sig.size() > 1 && sig[sig.size() - 1] == '0') sig.erase(sig.size() - 1);
    if (sig.size() > 1) { char buf[64]; snprintf(buf, sizeof buf, "%.*e", (int)sig.size() - 2, v); if (!(v == std::floor(v))) symx_check(strtod(buf, 0) != v, "no fewer digits would do"); }
  }
  symx_reach("written");
}
static bool at(const S &s, unsigned i, const S &t) { if (i + t.size() > s.size()) return false; for (unsigned k = 0; k < t.size(); ++k) if (s[i + k] != t[k]) return false; return true; }
static void strings() {
  static const char *const fs[] = {"concat($s, $t)", "starts-with($s, $t)", "contains($s, $t)", "substring-before($s, $t)", "substring-after($s, $t)", "string-length($s)", "normalize-space($s)", "translate($s, $t, $u)", "string($s)", "boolean($s)", "concat($s, $t, $s)"};
  unsigned k = symx_pick(11);
  auto x = e(fs[k]);
  unsigned n = symx_pick(symx_param("STR", 3) + 1);
  S s = chars(n), t = chars(k == 5 || k == 6 || k == 8 || k == 9 ? 0 : symx_pick(3)), u = chars(k == 7 ? symx_pick(3) : 0);
  V.s = str(s); V.t = str(t); V.u = str(u);
  XPath::XPathValue<S> r = run(x);
  int found = -1;
  if (k >= 2 && k <= 4) for (int i = (int)n; i >= 0; --i) if (at(s, i, t)) found = i;
  S want;
  switch (k) {
    case 0: symx_check(r.asString() == s + t, "concat joins"); break;
    case 1: symx_check(r.asBool() == at(s, 0, t), "starts-with"); break;
    case 2: symx_check(r.asBool() == (found >= 0), "contains"); break;
    case 3: symx_check(r.asString() == (found < 0 ? S() : S(s, 0, found)), "substring-before"); break;
    case 4: symx_check(r.asString() == (found < 0 ? S() : S(s, found + t.size())), "substring-after"); break;
    case 5: symx_check(r.asNumber() == n, "string-length counts"); break;
    case 6: {
      bool gap = false;
      for (unsigned i = 0; i < n; ++i) { if (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n') { gap = true; continue; } if (gap && !want.empty()) want += ' '; gap = false; want += s[i]; }
      symx_check(r.asString() == want, "normalize-space");
    } break;
    case 7:
      for (unsigned i = 0; i < n; ++i) { unsigned j = 0; while (j < t.size() && t[j] != s[i]) ++j; if (j == t.size()) want += s[i]; else if (j < u.size()) want += u[j]; }
      symx_note("translate('%s','%s','%s') = '%s'", s.c_str(), t.c_str(), u.c_str(), r.asString().c_str());
      symx_check(r.asString() == want, "translate replaces or drops each character");
      break;
    case 8: symx_check(r.asString() == s, "string of a string is itself"); break;
    case 9: symx_check(r.asBool() == (n > 0), "a string is true unless empty"); break;
    case 10: symx_check(r.asString() == s + t + s, "concat joins"); break;
  }
  symx_reach("strings");
}
static void booleans() {
  auto f = e("boolean($a)"), g = e("not($a)"), h = e("$a and $b"), i = e("$a or $b");
  double a = anyDouble(), b = anyDouble(); V.a = num(a); V.b = num(b);
  bool ta = a < 0 || a > 0, tb = b < 0 || b > 0;
  switch (symx_pick(5)) {
    case 0: symx_check(run(f).asBool() == ta, "a number is true unless zero or not-a-number"); break;
    case 1: symx_check(run(g).asBool() == !ta, "not negates"); break;
    case 2: symx_check(run(h).asBool() == (ta && tb), "and"); break;
    case 3: symx_check(run(i).asBool() == (ta || tb), "or"); break;
    case 4: {
      V.a = XPath::BoolValue<S>::createValue(ta);
      symx_check(run(e("number($a)")).asNumber() == (ta ? 1 : 0) && run(e("string($a)")).asString() == (ta ? "true" : "false") && run(e("$a + 0")).asNumber() == (ta ? 1 : 0), "booleans convert");
    } break;
  }
  symx_reach("booleans");
}
// functions of nodes
static void nodes() {
  DOM::Document<S> d = SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocument("", "r", 0);
  DOM::Element<S> r = d.getDocumentElement();
  unsigned n = symx_pick(3); S all; double total = 0;
  for (unsigned i = 0; i < n; ++i) {
    unsigned kind = symx_pick(4);
    S c(1, symx_in("0.a", 3)), v = c;
    DOM::Element<S> k = i ? d.createElementNS("u", "p:k") : d.createElement("k");
    if (kind == 0) k.appendChild(d.createTextNode(v));
    if (kind == 1) { k.appendChild(d.createTextNode(v)); k.appendChild(d.createCDATASection("5")); k.appendChild(d.createTextNode("0")); v += "50"; }
    if (kind == 2) { DOM::Element<S> in = d.createElement("in"); in.appendChild(d.createTextNode(v)); k.appendChild(d.createComment("9")); k.appendChild(in); k.appendChild(d.createTextNode("7")); k.appendChild(d.createProcessingInstruction("x", "9")); v += "7"; }
    if (kind == 3) v = "";
    r.appendChild(k);
    if (i == 0 && symx_pick(2)) r.appendChild(d.createComment("z"));
    all += v; total += value(v);
  }
  symx_check(xp->evaluate_expr("string(r)", d).asString() == all && xp->evaluate_expr("string()", r).asString() == all && xp->evaluate_expr("string(/)", d).asString() == all, "the string-value of an element is the text inside it");
  symx_check(sameNumber(xp->evaluate_expr("sum(r/*)", d).asNumber(), total), "sum adds the numbers of the nodes");
  symx_check(xp->evaluate_expr("count(r/*)", d).asNumber() == n && xp->evaluate_expr("string-length()", r).asNumber() == all.size(), "count counts");
  symx_check(xp->evaluate_expr("name(r/*)", d).asString() == (n ? "k" : "") && xp->evaluate_expr("local-name(r/*[2])", d).asString() == (n > 1 ? "k" : "") && xp->evaluate_expr("name(r/*[2])", d).asString() == (n > 1 ? "p:k" : "") && xp->evaluate_expr("namespace-uri(r/*[2])", d).asString() == (n > 1 ? "u" : "") && xp->evaluate_expr("namespace-uri(r/*)", d).asString() == "", "names are those of the first node");
  symx_check(sameNumber(xp->evaluate_expr("number()", r).asNumber(), value(all)) && sameNumber(xp->evaluate_expr("number(r)", d).asNumber(), value(all)) && xp->evaluate_expr("boolean(r/*)", d).asBool() == (n > 0), "node-sets convert");
  symx_reach("nodes");
}
void symx_main() {
  symx_locale();
  xp = new XPath::XPath<S>;
  DOM::Document<S> d = SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocument("", "r", 0);
  doc = &d;
  int only = symx_param("ONLY", -1);
  switch (only >= 0 ? only : (int)symx_pick(9)) {
    case 0: rounding(); break;
    case 1: substring(); break;
    case 2: arithmetic(); break;
    case 3: toNumber(); break;
    case 4: literal(); break;
    case 5: toString(); break;
    case 6: strings(); break;
    case 7: booleans(); break;
    case 8: nodes(); break;
  }
}
