// C21: location paths, predicates, filters and unions against XPath 1.0 sections 2 and 3.3.
#include <iostream>
#include "symx_locale.h"
#include "xpsteps.h"
static XPath::XPathExpression<S> *compiled;
static void compile(const S &path) { compiled = new XPath::XPathExpression<S>(xp->compile_expr(path)); }
static void verify(const S &path, int c, Set want, const char *what) {
  XPath::ExecutionContext<S> x; x.setVariableResolver(V);
  XPath::XPathValue<S> v = compiled->evaluate(T[c].node, x);
  symx_check(v.type() == XPath::NODE_SET, "a path gives a node-set");
  inOrder(want);
  XPath::NodeSet<S> got = v.asNodeSet();
  bool ok = same(got, want);
  if (!ok) { note(got, want); symx_note("%s from %d with $n = %g", path.c_str(), c, N); }
  symx_check(ok, what);
  symx_check(v.asString() == (want.empty() ? S() : stringValue(want[0])), "a node-set's string is that of its first node in document order");
}
static Set just(int c) { return Set(1, c); }
static void steps() {
  tree();
  int n = 1 + symx_pick(symx_param("STEPS", 2)), start = mode & 3;
  bool brief = (mode & 1) ^ (mode >> 2);
  S path = start == 1 ? "/" : start == 2 ? "//" : "";
  Step s[3]; bool deep[3] = {false, false, false};
  for (int i = 0; i < n; ++i) {
    s[i] = i + 1 < n || n == 1 ? step(12, n == 1 ? PREDS : symx_param("FIRST", 4), n == 1 ? symx_param("SECOND", 3) : 0, n == 1 ? 4 : symx_param("TESTS", 2)) : step(symx_param("AXES", 6), symx_param("LATER", 3), 0);
    if (i) { deep[i] = start == 3; path += deep[i] ? "//" : "/"; }
    path += write(s[i], brief);
  }
  compile(path);
  for (unsigned c = 0; c < T.size(); ++c) {
    Set want = start == 1 || start == 2 ? just(0) : just(c);
    if (start == 2) want = all(want);
    for (int i = 0; i < n; ++i) { if (deep[i]) want = all(want); want = apply(want, s[i]); }
    verify(path, c, want, "a location path selects what its steps do in turn");
  }
  symx_reach(n == 1 ? "step" : "path");
}
static void filters() {
  tree();
  bool var = symx_pick(2);
  int tail = symx_pick(3);
  Step s = var ? Step() : step(symx_param("FAXES", 5), 1, 0), t = tail ? step(symx_param("TAXES", 3), 1, 0) : Step();
  int p = symx_pick(PREDS), q = p ? symx_pick(symx_param("SECOND", 3)) : NONE;
  S path = var ? S("$v") : "(" + write(s, true) + ")";
  path = path + predText[p] + predText[q] + (tail ? (tail == 1 ? "/" : "//") + write(t, true) : S());
  compile(path);
  for (unsigned c = 0; c < T.size(); ++c) {
    Set want;
    if (var) want = W; else want = apply(just(c), s);
    inOrder(want);
    want = filter(filter(want, p), q);
    if (tail == 2) want = all(want);
    if (tail) want = apply(want, t);
    verify(path, c, want, "predicates of a filter number its nodes in document order");
    if (var) break;
  }
  symx_reach("filter");
}
static void unions() {
  tree();
  Step s = step(12, symx_param("UPREDS", 1), 0), t = step(symx_param("UAXES", 5), 1, 0);
  int kind = symx_pick(4);
  S path = write(s, false) + " | " + write(t, true);
  if (kind == 1) path = "$v | " + write(t, false);
  if (kind == 2) path = "(" + path + ")/*";
  if (kind == 3) path = "a | " + path;
  compile(path);
  for (unsigned c = 0; c < T.size(); ++c) {
    Set want = kind == 1 ? W : apply(just(c), s), more = apply(just(c), t);
    want.insert(want.end(), more.begin(), more.end());
    if (kind == 2) { Step u = {CHILD, STAR, NONE, NONE, false}; inOrder(want); want = apply(want, u); }
    if (kind == 3) { Step u = {CHILD, NAME, NONE, NONE, false}; more = apply(just(c), u); want.insert(want.end(), more.begin(), more.end()); }
    verify(path, c, want, "a union has the nodes of both sides, once");
  }
  symx_reach("union");
}
void symx_main() {
  symx_locale();
  xp = new XPath::XPath<S>; xp->setNamespaceContext(nsContext);
  N = number(); V.n = XPath::NumericValue<S>::createValue(N);
  int only = symx_param("ONLY", -1);
  int part = only >= 0 ? only : (int)symx_pick(3);
  if (part == 0) steps(); else if (part == 1) filters(); else unions();
}
