// A small namespace-aware reader of XML, independent of the code under test: what it reads, as a list of events.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
typedef std::string S;
typedef std::pair<std::pair<S, S>, S> Att; // namespace, local name, value
typedef std::map<S, S> Scope;
struct Ev { char kind; int how; S uri, name, value, raw; std::set<Att> atts; Scope scope; }; // how: written as text (1) or CDATA (2)
typedef std::vector<Ev> Evs;
static void put(Evs &l, char kind, const S &name, const S &value, const S &uri = S(), int how = 1) {
  if (kind == 't' && value.empty()) return;
  if (kind == 't' && !l.empty() && l.back().kind == 't') { l.back().value += value; l.back().how |= how; return; }
  Ev e; e.kind = kind; e.how = how; e.name = name; e.value = value; e.uri = uri; l.push_back(e);
}
// ---- the reader
struct Bad {};
struct Reader {
  const S s; size_t p; Evs out;
  Reader(const S &t) : s(t), p(0) {}
  char cur() { if (p >= s.size()) throw Bad(); return s[p]; }
  bool at(const char *w) { for (size_t i = 0; w[i]; ++i) if (p + i >= s.size() || s[p + i] != w[i]) return false; return true; }
  bool eat(const char *w) { if (!at(w)) return false; while (*w++) ++p; return true; }
  void need(const char *w) { if (!eat(w)) throw Bad(); }
  bool ws() { bool any = false; while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) { ++p; any = true; } return any; }
  S name() { S n; for (;; ++p) { char c = cur(); if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == ':' || (!n.empty() && (c == '-' || c == '.' || (c >= '0' && c <= '9'))))) break; n += c; } if (n.empty()) throw Bad(); return n; }
  S until(const char *w) { S t; while (!at(w)) { char c = cur(); ++p; if (c == '\r') { c = '\n'; if (at("\n")) ++p; } t += c; } eat(w); return t; }
  S amp() {
    need("&");
    if (eat("#")) {
      bool hex = eat("x"); unsigned v = 0, n = 0;
      for (; cur() != ';'; ++p, ++n) {
        char c = cur();
        unsigned d = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
        if (d == 99) throw Bad();
        v = v * (hex ? 16 : 10) + d;
      }
      ++p;
      if (!n || v > 127) throw Bad();
      return S(1, (char)v);
    }
    S n = name(); need(";");
    if (n == "lt") return "<"; if (n == "gt") return ">"; if (n == "amp") return "&"; if (n == "quot") return "\""; if (n == "apos") return "'";
    put(out, 'r', n, ""); return "";
  }
  S value() {
    char q = cur(); if (q != '"' && q != '\'') throw Bad();
    S t;
    for (++p; cur() != q;) {
      char c = cur();
      if (c == '<') throw Bad();
      if (c == '&') { t += amp(); continue; }
      ++p;
      if (c == '\r' && at("\n")) ++p;
      t += c == '\n' || c == '\t' || c == '\r' ? ' ' : c;
    }
    ++p;
    return t;
  }
  void split(const S &n, const Scope &in, bool attr, S &uri, S &local) {
    size_t c = n.find(':');
    S pre = c == S::npos ? S() : n.substr(0, c);
    local = c == S::npos ? n : n.substr(c + 1);
    if (local.empty() || c == 0 || local.find(':') != S::npos) throw Bad();
    if (attr && c == S::npos) { uri = ""; return; }
    if (pre == "xmlns") throw Bad();
    Scope::const_iterator i = in.find(pre);
    if (i == in.end()) { if (!pre.empty()) throw Bad(); uri = ""; return; }
    uri = i->second;
  }
  void element(Scope in) { // past "<"
    S n = name(); std::map<S, S> raw;
    for (;;) {
      bool space = ws();
      if (at(">") || at("/>")) break;
      if (!space) throw Bad();
      S a = name(); need("=");
      S v = value();
      if (!raw.insert(std::make_pair(a, v)).second) throw Bad();
      if (a == "xmlns") in[""] = v;
      else if (a.substr(0, 6) == "xmlns:") { if (v.empty() || a == "xmlns:xmlns" || (a == "xmlns:xml") != (v == "http://www.w3.org/XML/1998/namespace")) throw Bad(); in[a.substr(6)] = v; }
    }
    S uri, local;
    split(n, in, false, uri, local);
    put(out, '<', local, "", uri);
    out.back().scope = in; out.back().raw = n;
    std::set<std::pair<S, S> > seen;
    for (std::map<S, S>::iterator i = raw.begin(); i != raw.end(); ++i) {
      if (i->first == "xmlns" || i->first.substr(0, 6) == "xmlns:") continue;
      split(i->first, in, true, uri, local);
      if (!seen.insert(std::make_pair(uri, local)).second) throw Bad();
      out.back().atts.insert(Att(std::make_pair(uri, local), i->second));
    }
    if (!eat("/>")) {
      need(">");
      content(in);
      need("</"); if (name() != n) throw Bad();
      ws(); need(">");
    }
    put(out, '>', "", "");
  }
  void content(const Scope &in) {
    while (p < s.size() && !at("</")) {
      if (eat("<!--")) { S t; while (!at("--")) { char c = cur(); ++p; t += c; } eat("--"); need(">"); put(out, 'c', "", t); }
      else if (eat("<![CDATA[")) { S t = until("]]>"); put(out, 't', "", t, "", 2); }
      else if (eat("<?")) { S n = name(); if (n == "xml") throw Bad(); S d; if (ws()) d = until("?>"); else need("?>"); put(out, 'p', n, d); }
      else if (eat("<")) element(in);
      else if (at("&")) { S t = amp(); put(out, 't', "", t); }
      else if (at("]]>")) throw Bad();
      else { char c = cur(); ++p; if (c == '\r') { c = '\n'; if (at("\n")) ++p; } put(out, 't', "", S(1, c)); }
    }
  }
  void read() {
    Scope in; in["xml"] = "http://www.w3.org/XML/1998/namespace";
    if (eat("<?xml version=\"1.0\"?>")) need("\n");
    content(in);
    if (p < s.size()) throw Bad();
  }
};
