// C19: XPath comparisons against XPath 1.0 section 3.4, for every pair of types.
#include <iostream>
#include <cmath>
#include <vector>
#include "symx.h"
#include "symx_locale.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <XPath/XPath.hpp>
using namespace Arabica;
typedef std::string S;
struct Operand { int type; bool b; double n; std::vector<S> s; XPath::XPathValue<S> v; }; // bool, number, string, node-set
static Operand L, R;
struct Vars : XPath::VariableResolver<S> { XPath::XPathValue<S> resolveVariable(const S &, const S &n) const { return n == "l" ? L.v : R.v; } };
static Vars V;
static double value(const S &s) {
  unsigned i = 0, n = s.size();
  while (i < n && s[i] == ' ') ++i;
  bool neg = i < n && s[i] == '-'; if (neg) ++i;
  double v = 0, scale = 1; bool digit = false;
  while (i < n && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i++] - '0'); digit = true; }
  if (i < n && s[i] == '.') { ++i; while (i < n && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i++] - '0'); scale *= 10; digit = true; } }
  while (i < n && s[i] == ' ') ++i;
  if (!digit || i < n) return NAN;
  return neg ? -(v / scale) : v / scale;
}
static S chars(unsigned n) { S s; for (unsigned i = 0; i < n; ++i) s += symx_in("01-. ", 5); return s; }
static Operand operand(DOM::Document<S> doc, bool second) {
  static const double t[] = {-1, -0.0, 0, 0.5, 1, 10, HUGE_VAL, -HUGE_VAL, NAN};
  Operand o; o.type = symx_pick(4); o.b = false; o.n = 0;
  switch (o.type) {
    case 0: o.b = symx_pick(2); o.v = XPath::BoolValue<S>::createValue(o.b); break;
    case 1: o.n = t[symx_choose(9)]; o.v = XPath::NumericValue<S>::createValue(o.n); break;
    case 2: o.s.push_back(chars(symx_pick(symx_param("LEN", 2) + 1))); o.v = XPath::StringValue<S>::createValue(o.s[0]); break;
    case 3: {
      unsigned n = symx_pick(symx_param("SET", 2) + 1);
      XPath::NodeSet<S> set;
      for (unsigned i = 0; i < n; ++i) {
        S v = chars(symx_pick(2));
        DOM::Node<S> k;
        switch ((second ? i + 1 : i) % 3) {
          case 0: k = doc.createElement("k"); k.appendChild(doc.createTextNode(v)); doc.getDocumentElement().appendChild(k); break;
          case 1: k = doc.createProcessingInstruction("pi", v); doc.getDocumentElement().appendChild(k); break;
          case 2: k = doc.createComment(v); doc.getDocumentElement().appendChild(k); break;
        }
        set.push_back(k); o.s.push_back(v);
      }
      o.v = XPath::NodeSetValue<S>::createValue(set);
    }
  }
  return o;
}
template<class T> static bool cmp(int op, T a, T b) {
  switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; }
}
static bool truth(const Operand &o) { switch (o.type) { case 0: return o.b; case 1: return o.n < 0 || o.n > 0; case 2: return !o.s[0].empty(); default: return !o.s.empty(); } }
static bool atoms(int op, const Operand &l, const Operand &r) { // neither a node-set
  if (op < 2) {
    if (l.type == 0 || r.type == 0) return cmp(op, truth(l), truth(r));
    if (l.type == 2 && r.type == 2) return cmp(op, l.s[0], r.s[0]);
  }
  double a = l.type == 0 ? l.b : l.type == 1 ? l.n : value(l.s[0]), b = r.type == 0 ? r.b : r.type == 1 ? r.n : value(r.s[0]);
  return cmp(op, a, b);
}
static bool wanted(int op, const Operand &l, const Operand &r) {
  if (l.type == 3 && r.type == 0) { Operand b; b.type = 0; b.b = truth(l); return atoms(op, b, r); }
  if (r.type == 3 && l.type == 0) { Operand b; b.type = 0; b.b = truth(r); return atoms(op, l, b); }
  if (l.type == 3) { for (unsigned i = 0; i < l.s.size(); ++i) { Operand s; s.type = 2; s.s.push_back(l.s[i]); if (wanted(op, s, r)) return true; } return false; }
  if (r.type == 3) { for (unsigned i = 0; i < r.s.size(); ++i) { Operand s; s.type = 2; s.s.push_back(r.s[i]); if (wanted(op, l, s)) return true; } return false; }
  return atoms(op, l, r);
}
void symx_main() {
  symx_locale();
  XPath::XPath<S> xp;
  DOM::Document<S> doc = SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocument("", "r", 0);
  static const char *const ops[] = {"$l = $r", "$l != $r", "$l < $r", "$l <= $r", "$l > $r", "$l >= $r"};
  int op = symx_pick(6);
  L = operand(doc, false); R = operand(doc, true);
  XPath::ExecutionContext<S> c; c.setVariableResolver(V);
  XPath::XPathValue<S> got = xp.compile_expr(ops[op]).evaluate(doc, c);
  symx_note("types %d %d op %d", L.type, R.type, op);
  symx_check(got.type() == XPath::BOOL, "a comparison is a boolean");
  symx_check(got.asBool() == wanted(op, L, R), "a comparison is what the types of its operands make it");
  symx_reach(L.type == 3 || R.type == 3 ? "node-sets" : "values");
}
