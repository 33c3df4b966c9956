// C22: XPath expressions are read as the grammar of XPath 1.0 (sections 2, 3 and 3.7) reads them.
#include <iostream>
#include <cmath>
#include <cstring>
#include "symx_locale.h"
#include "xpmodel.h"
static XPath::XPath<S> *xp;
typedef XPath::XPathValue<S> Value;

#include "xpgrammar.h"
enum { OK, SYNTAX, OTHER };
static int compile(const S &s) {
  try { XPath::XPathExpression<S> e = xp->compile_expr(s); return OK; }
  catch (const XPath::SyntaxException &) { return SYNTAX; }
  catch (const XPath::UndefinedFunctionException &) { return OTHER; }
}
static void grammar() {
  static const char *const before[] = {"", "1 ", "a", "a[", "concat(a,", "(", "self::", "a/", "text(", "processing-instruction(", "$", "@", "-", "child", "a or", "5mod"};
  static const char *const after[] = {"", "", "", "]", ")", ")", "", "", ")", ")", "", "", "1", "b", "", ""};
  int k = symx_pick(symx_param("CONTEXTS", 16)), n = symx_param("N", 3) - (k >= symx_param("DEEP", 2) ? 1 : 0);
  static const char alphabet[] = "a1.*/-([:'or @$|,=])<!";
  S s = before[k];
  for (int i = 0; i < n; ++i) s += symx_in(alphabet, symx_param("ALPHABET", sizeof alphabet - 1));
  s += after[k];
  bool good = isExpr(s);
  long live = symx_live();
  int got = compile(s);
  if (good != (got != SYNTAX)) symx_note("%s", s.c_str());
  symx_check(good == (got != SYNTAX), "an expression compiles exactly when the grammar has it");
  symx_check(symx_live() == live, "compiling leaves nothing behind");
  symx_reach(good ? "expression" : "refused");
}

// ---- operators bind and group as they should
struct Val { bool isBool; double n; };
static Val num(double d) { Val v = {false, d}; return v; }
static Val boolean(bool b) { Val v = {true, b ? 1.0 : 0.0}; return v; }
static bool truth(Val v) { return v.n != 0 && v.n == v.n; }
enum { OR, AND, EQ, NE, LT, LE, GT, GE, ADD, SUB, MUL, DIV, MOD, OPS };
static const char *const opText[] = {"or", "and", "=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "div", "mod"};
static const int level[] = {0, 1, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 5};
static Val apply(int op, Val a, Val b) {
  switch (op) {
    case OR: return boolean(truth(a) || truth(b));
    case AND: return boolean(truth(a) && truth(b));
    case EQ: return boolean(a.isBool || b.isBool ? truth(a) == truth(b) : a.n == b.n);
    case NE: return boolean(a.isBool || b.isBool ? truth(a) != truth(b) : a.n != b.n);
    case LT: return boolean(a.n < b.n); case LE: return boolean(a.n <= b.n);
    case GT: return boolean(a.n > b.n); case GE: return boolean(a.n >= b.n);
    case ADD: return num(a.n + b.n); case SUB: return num(a.n - b.n); case MUL: return num(a.n * b.n);
    case DIV: return num(a.n / b.n);
  }
  return num(std::fmod(a.n, b.n));
}
struct Vars : XPath::VariableResolver<S> {
  Value v[4];
  Value resolveVariable(const S &, const S &name) const { return v[name[0] - 'w']; }
};
static std::vector<int> line; static unsigned pos; // operators, or one of
enum { LP = 100, RP, NEG, LEAF };
static Val leaf[3];
static Val binary(int lowest);
static Val unary() {
  int t = line[pos++];
  if (t == NEG) return num(-unary().n);
  if (t == LP) { Val v = binary(0); ++pos; return v; }
  return leaf[t - LEAF];
}
static Val binary(int lowest) {
  Val v = unary();
  while (pos < line.size() && line[pos] < OPS && level[line[pos]] >= lowest) { int op = line[pos++]; Val r = binary(level[op] + 1); v = apply(op, v, r); }
  return v;
}
static S write(int style) {
  S s;
  for (unsigned i = 0; i < line.size(); ++i) {
    int t = line[i];
    S w = t == LP ? "(" : t == RP ? ")" : t == NEG ? "-" : t >= LEAF ? S("$") + S(1, "xyz"[t - LEAF]) : S(opText[t]);
    // a name takes in every letter, digit and minus sign that follows it
    bool apart = style == 1 || (!s.empty() && isNameChar(s[s.size() - 1]) && isNameChar(w[0]));
    s += (apart && i ? S(style == 1 ? "\n" : " ") : S()) + w;
  }
  return s;
}
static void operators() {
  int n = symx_param("TERMS", 3), shape = symx_pick(symx_param("SHAPES", 4));
  static const int some[] = {OR, AND, EQ, LT, SUB, MUL, DIV, MOD, ADD, NE, GE, LE, GT};
  int count = symx_param("OPERATORS", 8);
  line.clear();
  for (int i = 0; i < n; ++i) {
    if (i) line.push_back(some[symx_pick(count)]);
    if (shape == 1 && i == n - 2) line.push_back(LP);
    if (shape == 2 && i == n - 1) { line.push_back(NEG); line.push_back(NEG); }
    if (shape == 3 && i == 0) line.push_back(NEG);
    if (shape == 3 && i == 1) { line.push_back(NEG); line.push_back(LP); }
    line.push_back(LEAF + i);
    if (shape == 3 && i == 1) line.push_back(RP);
    if (shape == 1 && i == n - 1) line.push_back(RP);
  }
  S text = write(shape & 1);
  XPath::XPathExpression<S> e = xp->compile_expr(text);
  Vars vars; static const double of[] = {0, 1, 2, 5};
  for (int i = 0; i < n; ++i) { leaf[i] = num(of[symx_choose(symx_param("VALUES", 3))]); vars.v[i + 1] = XPath::NumericValue<S>::createValue(leaf[i].n); }
  XPath::ExecutionContext<S> x; x.setVariableResolver(vars);
  Value got = e.evaluate(doc, x);
  pos = 0; Val want = binary(0);
  symx_check(got.type() == (want.isBool ? XPath::BOOL : XPath::NUMBER), "the outermost operator decides the type");
  double g = got.asNumber();
  bool ok = g == want.n || (g != g && want.n != want.n);
  if (!ok) symx_note("%s gave %g, not %g", text.c_str(), g, want.n);
  symx_check(ok, "operators group by precedence and from the left");
  symx_reach("operators");
}
// ---- whitespace is free between tokens; abbreviations mean what they stand for
static const char *const spaced[] = { // tokens apart by single spaces
  "a [ 1 ]", "( a | b ) [ last ( ) ] / text ( )", "child :: a / @ b", "// a / .. / b", ". / a [ @ b ]", "/ a", "- - 1", "- ( 2 ) * - 3", "count ( a | b ) + 1", "concat ( 'x' , \"y\" )",
  "a [ position ( ) = 1 ] [ . ]", "descendant-or-self :: node ( ) / b", "processing-instruction ( 'a' )", "p:a | p:*", "$w + 1", "a or b and not ( a )", "a div b", "1 <= 2 != 3", ".. // a", "self :: * / .",
  "@ * | attribute :: b", "following-sibling :: comment ( )", "true ( )", "a [ b [ 1 ] / @ b = 't' ] / b", "div div div", "* * *", "or or or", ". mod 2"};
static const char *const means[] = {
  "child::a[position()=1]", "(child::a|child::b)[position()=last()]/child::text()", "child::a/attribute::b", "/descendant-or-self::node()/child::a/parent::node()/child::b", "self::node()/child::a[attribute::b]", "/child::a", "1", "6", "count(child::a|child::b)+1", "'xy'",
  "child::a[1][boolean(self::node())]", "descendant-or-self::node()/child::b", "child::processing-instruction('a')", "child::*[namespace-uri()='u']", "8", "child::a or(child::b and not(child::a))", "number(child::a)div number(child::b)", "(1<=2)!=3", "parent::node()/descendant-or-self::node()/child::a", "self::*",
  "attribute::*", "following-sibling::comment()", "1=1", "child::a[(child::b[position()=1]/attribute::b)='t']/child::b", "(child::div)div(child::div)", "number(child::*)*number(child::*)", "boolean(child::or)or boolean(child::or)", "number(self::node())mod 2"};
static void whitespace() {
  int k = symx_pick(sizeof spaced / sizeof *spaced);
  S s = spaced[k], t; int gaps = 1;
  for (unsigned i = 0; i < s.size(); ++i) gaps += s[i] == ' ';
  int g = symx_pick(gaps + 2) - 1; // which gap has the whitespace: all of them, one, or after the end
  bool twice = symx_param("TWICE", 1) && g < 0;
  char w = symx_in(" \t\r\n", 4); S ws(1, w); if (twice) ws += symx_in(" \n", 2);
  int seen = 0;
  if (g < 0 || g == 0) t = ws;
  for (unsigned i = 0; i < s.size(); ++i) {
    if (s[i] != ' ') { t += s[i]; continue; }
    ++seen;
    if (g < 0 || g == seen) t += ws;
    else if (isNameChar(s[i - 1]) && (isNameChar(s[i + 1]))) t += ' ';
    else if (isNameChar(s[i - 1]) && s[i + 1] == '*' && 0) t += ' ';
  }
  if (g < 0 || g == gaps) t += ws;
  XPath::XPathExpression<S> a, b = xp->compile_expr(means[k]);
  try { a = xp->compile_expr(t); } catch (const XPath::SyntaxException &) { symx_note("%s", t.c_str()); symx_fail("whitespace may go between tokens"); }
  Vars vars; vars.v[0] = XPath::NumericValue<S>::createValue(7);
  XPath::ExecutionContext<S> x; x.setVariableResolver(vars);
  for (unsigned c = 0; c < T.size(); ++c) {
    Value l = a.evaluate(T[c].node, x), r = b.evaluate(T[c].node, x);
    bool ok = l.type() == r.type() && l.asString() == r.asString();
    if (ok && l.type() == XPath::NODE_SET) {
      XPath::NodeSet<S> ln = l.asNodeSet(), rn = r.asNodeSet();
      ok = ln.size() == rn.size();
      for (unsigned i = 0; ok && i < ln.size(); ++i) ok = ln[i] == rn[i];
    }
    if (!ok) symx_note("%s from %d is %s not %s", t.c_str(), c, l.asString().c_str(), r.asString().c_str());
    symx_check(ok, "an abbreviation means what it stands for");
  }
  symx_reach("whitespace");
}
// ---- literals, numbers and names
static void atoms() {
  int kind = symx_pick(4);
  if (kind == 0) {
    char q = symx_pick(2) ? '"' : '\''; S v;
    for (int i = 0, n = symx_pick(symx_param("LITERAL", 3)); i < n; ++i) { char c = symx_char(); symx_assume(c != q && c != 0); v += c; }
    Value got = xp->compile_expr(S(1, q) + v + q).evaluate(doc);
    symx_check(got.type() == XPath::STRING && got.asString() == v, "a literal is what is between its quotes");
  } else if (kind == 1) {
    int digits = symx_param("DIGITS", 2), before = symx_pick(3), after = symx_pick(digits + 1); if (!before && !after) after = 1;
    S s; double whole = 0, part = 0, scale = 1; char d;
    for (int i = 0; i < before; ++i) { d = '0' + symx_choose(10); s += d; whole = whole * 10 + (d - '0'); }
    if (after || symx_pick(2)) s += '.';
    for (int i = 0; i < after; ++i) { d = '0' + symx_choose(10); s += d; part = part * 10 + (d - '0'); scale *= 10; }
    Value got = xp->compile_expr(s).evaluate(doc);
    symx_check(got.type() == XPath::NUMBER && got.asNumber() == (whole * scale + part) / scale, "a number is what its digits say");
  } else {
    // names: from any script, and starting with or being the grammar's own words
    static const char *const names[] = {"or", "and", "div", "mod", "text", "node", "comment", "processing-instruction", "child", "self", "parent", "ancestor-or-self", "childish", "selfish", "texture", "node-set", "order", "_a", "a-b", "a.b", "a1", "namespace"};
    S n;
    if (kind == 2) n = names[symx_pick(sizeof names / sizeof *names)];
    else {
      int which = symx_pick(3);
      unsigned char c = symx_byte(); symx_assume(c >= 0x80 && c <= 0xBF);
      if (which == 0) { symx_assume(c != 0x97 && c != 0xB7); n = S("\xC3") + (char)c; }
      if (which == 1) n = S("\xE4\xB8") + (char)c + "a";
      if (which == 2) { symx_assume(c <= 0xAC && c != 0x80 && c != 0x8D); n = S("b\xD0") + (char)c + "-1"; }
    }
    DOM::Element<S> e = doc.createElement(n), f = doc.createElementNS("u", "p:" + n); e.appendChild(f); e.setAttribute(n, "v");
    DOM::Element<S> r = doc.createElement("r"); r.appendChild(e); r.appendChild(doc.createElement("a"));
    XPath::NodeSet<S> got = xp->compile_expr(n).evaluate(r).asNodeSet();
    symx_check(got.size() == 1 && got[0] == e, "a path may be any name");
    got = xp->compile_expr("child::" + n + "/p:" + n).evaluate(r).asNodeSet();
    symx_check(got.size() == 1 && got[0] == f, "a step may be any name");
    symx_check(xp->compile_expr(n + "/@" + n + "='v'").evaluate(r).asBool(), "an attribute may have any name");
    Vars vars; vars.v[0] = XPath::StringValue<S>::createValue("7"); XPath::ExecutionContext<S> x; x.setVariableResolver(vars);
    bool function = n != "text" && n != "node" && n != "comment" && n != "processing-instruction"; int c = compile(n + "(1)");
    symx_check(c == (function ? OTHER : SYNTAX), "a function may have any name but a node type's");
    c = compile("1 " + n + " 2");
    symx_check((c == OK) == (n == "or" || n == "and" || n == "div" || n == "mod"), "only an operator's name is an operator");
  }
  symx_reach(kind == 0 ? "literal" : kind == 1 ? "number" : "names");
}
void symx_main() {
  symx_locale();
  xp = new XPath::XPath<S>; xp->setNamespaceContext(nsContext);
  doc = impl().createDocument("", "", 0);
  int d = add(-1, ROOT, "", "", "", doc);
  int a = element(d, "a", false); attribute(a, "b", false, "t");
  int c = element(a, "a", false); attribute(c, "b", false, "2"); node(c, TEXT, "", "3");
  int b = element(c, "b", false); attribute(b, "b", false, "t"); node(b, TEXT, "", "4");
  element(a, "a", true); node(a, COMMENT, "", "k"); node(a, PI, "a", "z"); element(a, "div", false);
  int e = element(a, "b", false); node(e, TEXT, "", "5"); element(e, "a", false); element(a, "or", false);
  compile("/"); compile("a["); compile("foo()"); compile("a[1]/b*2");
  int only = symx_param("ONLY", -1);
  int part = only >= 0 ? only : (int)symx_pick(4);
  if (part == 0) grammar(); else if (part == 1) operators(); else if (part == 2) whitespace(); else atoms();
}
