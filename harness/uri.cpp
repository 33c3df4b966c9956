// C07: URI parsing, printing and relative resolution against RFC 3986 sections 3, 5.2 and 5.3
// (URIs of scheme, authority and path; queries, fragments and drive letters are outside).
#include <iostream>
#include <vector>
#include "symx.h"
#include <io/uri.hpp>
using Arabica::io::URI;

struct Ref { std::string scheme, host, port, path; bool authority; };

static std::string path_of(size_t max, bool rooted) {
  size_t n = symx_pick(max + 1);
  std::string s;
  if (rooted && n) { s = "/"; --n; }
  for (size_t i = 0; i < n; ++i) s += symx_in("/.ab:", 5);
  return s;
}

static std::string print(const Ref &r) {
  std::string s;
  if (!r.scheme.empty()) s += r.scheme + ":";
  if (r.authority) { s += "//" + r.host; if (!r.port.empty()) s += ":" + r.port; }
  return s + r.path;
}

static Ref make(unsigned kind, size_t max) {
  Ref r;
  r.authority = false;
  if (kind == 0) { // path only
    r.path = path_of(max, symx_pick(2));
    size_t colon = r.path.find(':');
    symx_assume(colon == std::string::npos || r.path.find('/') < colon); // otherwise it is a scheme
    symx_assume(r.path.compare(0, 2, "//") != 0);                         // otherwise it is an authority
  } else {
    r.scheme = kind == 1 ? "http" : kind == 2 ? "file" : "urnx";
    if (kind == 3) r.scheme[3] = symx_in("ex", 2);
    r.authority = kind != 2 || symx_pick(2);
    if (r.authority && kind != 2) {
      r.host = "h";
      r.host[0] = symx_in("hA.0", 4);
      if (symx_pick(2)) r.port += symx_in("089", 3);
    }
    r.path = path_of(max, r.authority || symx_pick(2));
    if (kind == 2 && r.authority && r.path.empty()) r.path = "/";
    if (!r.authority) symx_assume(r.path.compare(0, 2, "//") != 0 && (r.path.size() < 2 || r.path[1] != ':'));
  }
  return r;
}

// 5.2.4 by segments; a relative path keeps the ".." it cannot resolve
static std::string dots(const std::string &p) {
  bool rooted = !p.empty() && p[0] == '/';
  std::vector<std::string> in, out;
  std::string cur;
  for (size_t i = rooted; i < p.size(); ++i) if (p[i] == '/') { in.push_back(cur); cur.clear(); } else cur += p[i];
  in.push_back(cur);
  for (size_t i = 0; i < in.size(); ++i) {
    bool last = i + 1 == in.size();
    if (in[i] == ".") { if (last) out.push_back(""); }
    else if (in[i] == "..") {
      if (!out.empty() && out.back() != "..") { out.pop_back(); if (last) out.push_back(""); }
      else if (rooted) { if (last) out.push_back(""); }
      else { out.push_back(".."); if (last) out.push_back(""); }
    } else out.push_back(in[i]);
  }
  std::string r;
  for (size_t i = 0; i < out.size(); ++i) r += (rooted || i ? "/" : "") + out[i];
  return r;
}

static void same(const URI &u, const Ref &w, const char *what) {
  symx_note("%s: got scheme '%s' host '%s' port '%s' path '%s', expected '%s' '%s' '%s' '%s'", what, u.scheme().c_str(), u.host().c_str(), u.port().c_str(), u.path().c_str(), w.scheme.c_str(), w.host.c_str(), w.port.c_str(), w.path.c_str());
  symx_check(u.scheme() == w.scheme, "scheme");
  symx_check(u.host() == w.host, "host");
  symx_check(u.path() == w.path, "path");
  symx_check(u.port() == (!w.port.empty() ? w.port : w.scheme == "http" ? "80" : w.scheme == "https" ? "443" : "0"), "port");
}

static bool absolute(const Ref &r) { return !r.scheme.empty() && (!r.host.empty() || (r.scheme == "file" && r.path[0] == '/')); }

static void parsing() {
  Ref r = make(symx_pick(4), symx_param("N", 5));
  std::string s = print(r);
  symx_note("parse '%s'", s.c_str());
  URI u(s);
  same(u, r, "parsed");
  symx_check(u.is_absolute() == absolute(r), "absolute");
  URI v(u.as_string());
  symx_check(v == u && !(v != u), "as_string parses back to the same URI");
  symx_check(v.as_string() == u.as_string(), "as_string is stable");
  URI w; w = u;
  symx_check(w == u && w.as_string() == u.as_string(), "copies are equal");
  symx_reach("parsed");
}

static void resolving() {
  static const char *const schemes[] = {"http", "https", "htt", "file", "urnx", "urn", "ht"};
  unsigned k = symx_pick(4);
  Ref b = make(symx_pick(4), k == 3 ? 1 : symx_param("B", 4));
  Ref r;
  if (k == 0) r = make(0, symx_param("R", 5));
  else if (k == 3) { // a URI of another scheme, with or without an authority, whatever the schemes have in common
    if (b.scheme == "http") b.scheme = schemes[symx_pick(2)];
    r.authority = symx_pick(2);
    r.scheme = schemes[symx_pick(7)];
    if (r.authority && r.scheme != "file") r.host = "o";
    r.path = r.authority || symx_pick(2) ? "/x" : "xyz";
    if (!r.authority) symx_assume(b.scheme != r.scheme && !(b.scheme.empty() && r.scheme == "file")); // the same scheme again: a relative reference of old
  }
  else { // a full URI of the same or another scheme
    r.authority = true; r.scheme = "http"; r.host = "o"; r.path = "/x";
    if (k == 2) { r.scheme = "file"; r.authority = true; r.host = ""; }
  }
  std::string bs = print(b), rs = print(r);
  symx_note("resolve '%s' against '%s'", rs.c_str(), bs.c_str());
  URI base(bs);
  URI u(base, rs);
  Ref w = b;
  if (rs.empty()) { same(u, b, "same document"); return; }
  if (k == 3 && !(r.scheme == "file" && b.scheme.empty())) { same(u, r, "another scheme"); symx_reach("scheme"); return; }
  if (absolute(r)) { same(u, r, "absolute reference"); symx_check(u.is_absolute(), "stays absolute"); symx_reach("absolute"); return; }
  if (r.path[0] == '/') w.path = dots(r.path);
  else {
    std::string m;
    if (b.path.empty() && !b.host.empty()) m = "/" + r.path;
    else { size_t i = b.path.rfind('/'); m = i == std::string::npos ? r.path : b.path.substr(0, i + 1) + r.path; }
    w.path = dots(m);
    symx_reach("merged");
  }
  same(u, w, "resolved");
  symx_check(u.is_absolute() == base.is_absolute(), "absolute like its base");
}

static void anything() { // any bytes at all: no reads outside, something sensible comes back
  size_t n = symx_pick(symx_param("Z", 5) + 1), m = symx_pick(symx_param("Y", 2) + 1);
  std::string s = symx_string(n), t = symx_string(m);
  URI u(s), v(u, t);
  symx_check(u.as_string().size() <= n + 8, "printing only adds the authority marker");
  symx_check(u == u && !(u != u), "equality");
  std::string x = v.as_string();
  symx_reach("anything");
}

void symx_main() {
  switch (symx_param("PART", -1) >= 0 ? symx_param("PART", -1) : symx_pick(3)) {
    case 0: return parsing();
    case 1: return resolving();
    default: return anything();
  }
}
