// C08: NamespaceSupport over arbitrary histories against a stack of maps.
#include <iostream>
#include <vector>
#include <algorithm>
#include "symx.h"
#include <SAX/helpers/NamespaceSupport.hpp>
typedef Arabica::SAX::NamespaceSupport<std::string, Arabica::default_string_adaptor<std::string> > NS;
typedef std::vector<std::string> List;
struct Decl { std::string prefix, uri; };
static std::vector<std::vector<Decl> > stack_;
static const char XMLURI[] = "http://www.w3.org/XML/1998/namespace";

static std::string prefix() { std::string p; if (symx_pick(2)) p += symx_in("ab", 2); return p; }

static bool find(const std::string &p, std::string &uri, size_t down = 0) {
  for (size_t i = stack_.size(); i-- > down;)
    for (size_t j = 0; j < stack_[i].size(); ++j) if (stack_[i][j].prefix == p) { uri = stack_[i][j].uri; return true; }
  return false;
}
static void same(List got, List want, const char *id) { // as sets without repetition
  symx_check(got.size() == want.size(), id);
  for (size_t i = 0; i < want.size(); ++i) {
    unsigned n = 0;
    for (size_t j = 0; j < got.size(); ++j) n += got[j] == want[i];
    symx_check(n == 1, id);
  }
}
static void queries(const NS &ns) {
  List all, now, forUri;
  std::string q = prefix(), u = "u", uri;
  if (q.empty() && symx_pick(2)) q = "xml";
  u[0] = symx_in("uv", 2);
  if (q == "xml") u = XMLURI;
  bool known = find(q, uri);
  symx_note("query prefix '%s' uri '%s'", q.c_str(), u.c_str());
  symx_check(ns.getURI(q) == (known ? uri : ""), "getURI is the innermost declaration");
  for (size_t i = stack_.size(); i-- > 0;)
    for (size_t j = 0; j < stack_[i].size(); ++j) {
      const Decl &d = stack_[i][j];
      if (i + 1 == stack_.size()) now.push_back(d.prefix);
      std::string hidden;
      if (d.prefix.empty() || find(d.prefix, hidden, i + 1)) continue;
      all.push_back(d.prefix);
      if (d.uri == u) forUri.push_back(d.prefix);
    }
  same(ns.getPrefixes(), all, "getPrefixes lists each prefix in force once, never the default");
  same(ns.getPrefixes(u), forUri, "getPrefixes(uri) lists exactly the prefixes bound to it");
  same(ns.getDeclaredPrefixes(), now, "getDeclaredPrefixes lists this context's declarations");
  std::string p = ns.getPrefix(u);
  symx_check(p.empty() == forUri.empty() && (p.empty() || std::find(forUri.begin(), forUri.end(), p) != forUri.end()), "getPrefix finds a prefix bound to the URI");
  bool attr = symx_pick(2);
  std::string raw = q.empty() ? "n" : q + ":n";
  auto qn = ns.processName(raw, attr);
  symx_check(qn.localName() == "n" && qn.prefix() == q && qn.rawName() == raw, "processName splits the name");
  symx_check(qn.namespaceUri() == (q.empty() && attr ? "" : known ? uri : ""), "processName resolves the prefix");
  symx_reach("queried");
}
void symx_main() {
  NS ns;
  std::vector<Decl> base(1, Decl{"xml", XMLURI});
  stack_.assign(1, base);
  unsigned n = symx_pick(symx_param("N", 4) + 1);
  for (unsigned i = 0; i < n; ++i) {
    switch (symx_pick(4)) {
      case 0: symx_note("push"); ns.pushContext(); stack_.push_back(std::vector<Decl>()); break;
      case 1: if (stack_.size() < 2) return; symx_note("pop"); ns.popContext(); stack_.pop_back(); symx_reach("popped"); break;
      case 2: {
        Decl d{prefix(), "u"};
        d.uri[0] = symx_in("uv", 2);
        if (d.prefix.empty() && symx_pick(2)) d.uri.clear();
        symx_note("declare '%s' '%s'", d.prefix.c_str(), d.uri.c_str());
        symx_check(ns.declarePrefix(d.prefix, d.uri), "declaration accepted");
        std::vector<Decl> &top = stack_.back();
        size_t j = 0;
        while (j < top.size() && top[j].prefix != d.prefix) ++j;
        if (j == top.size()) top.push_back(d); else { top[j].uri = d.uri; symx_reach("redeclared"); }
        break;
      }
      default:
        if (symx_pick(2)) { symx_note("reset"); ns.reset(); stack_.assign(1, base); }
        else { symx_note("reserved"); symx_check(!ns.declarePrefix(symx_pick(2) ? "xml" : "xmlns", "u"), "xml and xmlns cannot be declared"); }
    }
  }
  queries(ns);
}
