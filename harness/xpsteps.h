// Steps, predicates and the trees they are tried on, with what XPath 1.0 says they select.
#include <cmath>
#include "xpmodel.h"
static double N; static Set W; // what $n and $v hold
struct Vars : XPath::VariableResolver<S> {
  XPath::XPathValue<S> n, v;
  XPath::XPathValue<S> resolveVariable(const S &, const S &name) const { return name == "n" ? n : v; }
};
static Vars V;
static XPath::XPath<S> *xp;
static double number() { static const double t[] = {1, 2, 3, 0, -1, 1.5, HUGE_VAL, NAN}; return t[symx_choose(8)]; }
// predicates
enum { NONE, NTH, LAST, BELOW, HASATT, HASA, ISTEXT, NOTFIRST, COUNT, LASTBUT, SECONDA, UP, ROOTED, BOOLEAN, OTHER, SIZE, NEITHER, PREDS };
static const char *const predText[] = {"", "[$n]", "[last()]", "[position() < $n]", "[@a]", "[a]", "[. = 't']", "[position() != 1]", "[count(*) = $n]", "[last() - 1]", "[a[2]]", "[../a]", "[/b]", "[position() = 1 or self::text()]", "[following-sibling::*[1][self::a]]", "[last() = $n]", "[not(string(position()) = $n)]"};
static int countOf(int n, int ax, int test) { return select(n, ax, test).size(); }
static bool holds(int pred, int n, int pos, int size) {
  switch (pred) {
    case NTH: return pos == N;
    case LAST: return pos == size;
    case SIZE: return size == N;
    case NEITHER: return pos != N;
    case BELOW: return pos < N;
    case HASATT: return countOf(n, ATT, NAME) > 0;
    case HASA: return countOf(n, CHILD, NAME) > 0;
    case ISTEXT: return stringValue(n) == "t";
    case NOTFIRST: return pos != 1;
    case COUNT: return countOf(n, CHILD, STAR) == N;
    case LASTBUT: return pos == size - 1;
    case SECONDA: return countOf(n, CHILD, NAME) > 1;
    case UP: return T[n].parent >= 0 && countOf(T[n].parent, CHILD, NAME) > 0;
    case ROOTED: return T[0].kind == ROOT && [] { for (unsigned i = 1; i < T.size(); ++i) if (T[i].parent == 0 && T[i].kind == ELEM) return T[i].local == "b" && T[i].uri == ""; return false; }();
    case BOOLEAN: return pos == 1 || T[n].kind == TEXT;
    case OTHER: { Set s = select(n, FOLLSIB, STAR); return !s.empty() && passes(s[0], SELF, NAME); }
  }
  return true;
}
static Set filter(const Set &s, int pred) {
  Set r;
  for (unsigned i = 0; i < s.size(); ++i) if (holds(pred, s[i], i + 1, s.size())) r.push_back(s[i]);
  return r;
}
struct Step { int ax, test, p, q; bool deep; };
static S write(const Step &s, bool brief) {
  S a = S(axisName[s.ax]) + "::", t = testName[s.test];
  if (brief && s.ax == CHILD) a = "";
  if (brief && s.ax == ATT) a = "@";
  if (brief && s.p == NONE && s.q == NONE && s.test == ANY && (s.ax == SELF || s.ax == PARENT)) return s.ax == SELF ? "." : "..";
  return a + t + predText[s.p] + predText[s.q];
}
static Set apply(const Set &from, const Step &s) {
  Set r;
  for (unsigned i = 0; i < from.size(); ++i) {
    Set x = filter(filter(select(from[i], s.ax, s.test), s.p), s.q);
    r.insert(r.end(), x.begin(), x.end());
  }
  inOrder(r);
  return r;
}
static Set all(const Set &from) { Step s = {DESCSELF, ANY, NONE, NONE, false}; return apply(from, s); }
static Step step(int axes, int preds, int second, int tests = symx_param("TESTS", 2)) {
  static const int ax[] = {CHILD, DESC, ANC, PREC, ATT, FOLLSIB, PRECSIB, DESCSELF, SELF, PARENT, FOLL, ANCSELF}, ts[] = {NAME, ANY, STAR, TEXTS};
  Step s; s.ax = ax[symx_pick(axes)]; s.test = ts[symx_pick(tests)]; s.p = symx_pick(preds); s.q = s.p && second ? symx_pick(second) : NONE; s.deep = false;
  return s;
}
static int mode; // which of a few trees, ways to start and ways to write a path
static void tree() {
  T.clear(); symbolicNames = symx_param("NAMES", 2);
  doc = impl().createDocument("", "", 0);
  int d = add(-1, ROOT, "", "", "", doc);
  mode = symx_pick(symx_param("MODES", 4)); bool more = (mode + 1) & 2;
  if (more) node(d, COMMENT, "", "k");
  int r = element(d, "b", false);
  int e = element(r, name(), false); attribute(e, name(), false, "t");
  if (more) node(e, TEXT, "", "t");
  int f = element(e, "a", false); node(f, TEXT, "", "t"); element(f, "a", false);
  element(e, "a", false);
  node(r, TEXT, "", "x");
  int g = element(r, "a", false); attribute(g, "a", false, "1"); attribute(g, "b", false, "2");
  if (more) { node(g, PI, "a", ""); element(element(g, "b", false), "a", false); }
  element(r, "b", false);
  W.clear(); W.push_back(T.size() - 1); W.push_back(2); W.push_back(3 + more); W.push_back(5);
  XPath::NodeSet<S> v;
  for (unsigned i = 0; i < W.size(); ++i) v.push_back(T[W[i]].node);
  V.v = XPath::NodeSetValue<S>::createValue(v);
}
