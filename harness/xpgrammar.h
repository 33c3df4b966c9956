// Whether a string is an Expr of XPath 1.0 or a Pattern of XSLT 1.0.
#include <cstring>
#include <string>
#include <vector>
enum Type { END, BAD, OP, MINUS, BAR, SLASH, SLASHES, OPEN, CLOSE, SQ, UNSQ, COMMA, AT, COLONS, DOT, DOTS, NAMETEST, NODETYPE, PITYPE, FUNC, AXIS, LITERAL, NUM, VAR };
static S in; static unsigned at; static std::vector<Type> toks; static std::vector<S> texts; static S tokText;
static bool isSpace(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static bool isDigit(char c) { return c >= '0' && c <= '9'; }
static bool isStart(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c & 0x80); }
static bool isNameChar(char c) { return isStart(c) || isDigit(c) || c == '-' || c == '.'; }
static char peek(unsigned k = 0) { return at + k < in.size() ? in[at + k] : 0; }
static bool ncname(S &n) {
  if (!(at < in.size() && isStart(peek()))) return false;
  unsigned b = at; while (at < in.size() && isNameChar(peek())) ++at;
  n = in.substr(b, at - b); return true;
}
static bool oneOf(const S &s, const char *const *t) { for (; *t; ++t) if (s == *t) return true; return false; }
static const char *const operatorNames[] = {"and", "or", "mod", "div", 0}, *const nodeTypes[] = {"comment", "text", "node", 0};
static const char *const axes[] = {"ancestor", "ancestor-or-self", "attribute", "child", "descendant", "descendant-or-self", "following", "following-sibling", "namespace", "parent", "preceding", "preceding-sibling", "self", 0};
static Type next() {
  while (at < in.size() && isSpace(peek())) ++at;
  if (at >= in.size()) return END;
  Type last = toks.empty() ? END : toks.back();
  bool operand = !(last == END || last == AT || last == COLONS || last == OPEN || last == SQ || last == COMMA || last == OP || last == MINUS || last == BAR || last == SLASH || last == SLASHES);
  char c = peek();
  if (c == '(') { ++at; return OPEN; } if (c == ')') { ++at; return CLOSE; }
  if (c == '[') { ++at; return SQ; } if (c == ']') { ++at; return UNSQ; }
  if (c == ',') { ++at; return COMMA; } if (c == '@') { ++at; return AT; }
  if (c == '|') { ++at; return BAR; } if (c == '-') { ++at; return MINUS; }
  if (c == '+' || c == '=') { ++at; return OP; }
  if (c == '!') { if (peek(1) != '=') return BAD; at += 2; return OP; }
  if (c == '<' || c == '>') { ++at; if (peek() == '=') ++at; return OP; }
  if (c == '/') { ++at; if (peek() == '/') { ++at; return SLASHES; } return SLASH; }
  if (c == ':') { if (peek(1) != ':') return BAD; at += 2; return COLONS; }
  if (c == '"' || c == '\'') { unsigned e = at + 1; while (e < in.size() && in[e] != c) ++e; if (e == in.size()) return BAD; at = e + 1; return LITERAL; }
  if (c == '.') {
    if (isDigit(peek(1))) { ++at; while (isDigit(peek())) ++at; return NUM; }
    ++at; if (peek() == '.') { ++at; return DOTS; } return DOT;
  }
  if (isDigit(c)) { while (isDigit(peek())) ++at; if (peek() == '.') { ++at; while (isDigit(peek())) ++at; } return NUM; }
  if (c == '*') { ++at; return operand ? OP : NAMETEST; }
  S n, local;
  if (c == '$') { ++at; if (!ncname(n)) return BAD; if (peek() == ':') { ++at; if (!ncname(n)) return BAD; } return VAR; }
  // the name of an operator need not be apart from what follows it, 6div2
  if (operand) { for (const char *const *o = operatorNames; *o; ++o) if (in.compare(at, strlen(*o), *o) == 0) { at += strlen(*o); return OP; } return BAD; }
  if (!ncname(n)) return BAD;
  bool prefixed = false;
  if (peek() == ':' && peek(1) != ':') { ++at; prefixed = true; if (peek() == '*') { ++at; return NAMETEST; } if (!ncname(local)) return BAD; }
  unsigned a = at; while (a < in.size() && isSpace(in[a])) ++a;
  if (a < in.size() && in[a] == '(') return prefixed ? FUNC : n == "processing-instruction" ? PITYPE : oneOf(n, nodeTypes) ? NODETYPE : FUNC;
  if (a + 1 < in.size() && in[a] == ':' && in[a + 1] == ':') { tokText = n; return !prefixed && oneOf(n, axes) ? AXIS : BAD; }
  return NAMETEST;
}
static unsigned p;
static Type look() { return p < toks.size() ? toks[p] : END; }
static bool eat(Type t) { if (look() != t) return false; ++p; return true; }
static bool expr();
static bool predicates() { while (eat(SQ)) { if (!expr() || !eat(UNSQ)) return false; } return true; }
static bool startsStep() { Type t = look(); return t == DOT || t == DOTS || t == AT || t == AXIS || t == NAMETEST || t == NODETYPE || t == PITYPE; }
static bool step() {
  if (eat(DOT) || eat(DOTS)) return true;
  if (eat(AXIS)) { if (!eat(COLONS)) return false; } else eat(AT);
  if (eat(NAMETEST)) return predicates();
  if (eat(NODETYPE)) return eat(OPEN) && eat(CLOSE) && predicates();
  if (eat(PITYPE)) { if (!eat(OPEN)) return false; eat(LITERAL); return eat(CLOSE) && predicates(); }
  return false;
}
static bool slash() { return eat(SLASH) || eat(SLASHES); }
static bool relative() { if (!step()) return false; while (slash()) if (!step()) return false; return true; }
static bool path() {
  if (eat(SLASHES)) return relative();
  if (eat(SLASH)) { return startsStep() ? relative() : true; }
  if (startsStep()) return relative();
  if (eat(OPEN)) { if (!expr() || !eat(CLOSE)) return false; }
  else if (eat(FUNC)) { if (!eat(OPEN)) return false; if (!eat(CLOSE)) { do if (!expr()) return false; while (eat(COMMA)); if (!eat(CLOSE)) return false; } }
  else if (!(eat(LITERAL) || eat(NUM) || eat(VAR))) return false;
  if (!predicates()) return false;
  return slash() ? relative() : true;
}
static bool expr() {
  for (;;) {
    while (eat(MINUS)) ;
    if (!path()) return false;
    while (eat(BAR)) if (!path()) return false;
    if (!(eat(OP) || eat(MINUS))) return true;
  }
}
static bool tokens(const S &s) {
  in = s; at = 0; toks.clear(); texts.clear();
  for (;;) { tokText = ""; Type t = next(); if (t == BAD) return false; if (t == END) break; toks.push_back(t); texts.push_back(tokText); }
  p = 0; return true;
}
static bool isExpr(const S &s) { return tokens(s) && expr() && p == toks.size(); }
// patterns, without id() and key()
static bool patternStep() {
  if (look() == AXIS && texts[p] != "child" && texts[p] != "attribute") return false;
  return look() != DOT && look() != DOTS && step();
}
static bool relativePattern() { if (!patternStep()) return false; while (slash()) if (!patternStep()) return false; return true; }
static bool pathPattern() {
  if (eat(SLASH)) return startsStep() ? relativePattern() : true;
  eat(SLASHES); return relativePattern();
}
static bool isPattern(const S &s) {
  if (!tokens(s)) return false;
  do if (!pathPattern()) return false; while (eat(BAR));
  return p == toks.size();
}
