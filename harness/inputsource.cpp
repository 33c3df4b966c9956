// C13: InputSource / IStreamHandle ownership over arbitrary histories.
#include <iostream>
#include <sstream>
#include <vector>
#include <memory>
#include "symx.h"
#include <SAX/InputSource.hpp>
#include <SAX/helpers/InputSourceResolver.hpp>
using namespace Arabica;
typedef SAX::InputSource<std::string> Source;
static std::vector<int> dead; // how often each stream was destroyed
struct Stream : std::istringstream { int id; Stream(int i) : std::istringstream("x"), id(i) {} ~Stream() { ++dead[id]; } };
struct Model { int id; bool owned; std::string pub, sys, enc; };

void symx_main() {
  enum { K = 3 };
  Stream *outside = 0;
  std::vector<Stream *> all;
  std::vector<bool> given; // handed over to a source
  dead.reserve(64);
  auto fresh = [&](bool give) { Stream *s = new Stream((int)all.size()); all.push_back(s); given.push_back(give); dead.push_back(0); return s; };
  outside = fresh(false);
  {
    Source *s[K] = {new Source, new Source("sys"), new Source(*outside)};
    Model m[K] = {{-1, false, "", "", ""}, {-1, false, "", "sys", ""}, {0, false, "", "", ""}};
    unsigned n = symx_pick(symx_param("N", 3) + 1);
    for (unsigned i = 0; i < n; ++i) {
      unsigned a = symx_pick(K), b;
      switch (symx_pick(9)) {
        case 0: b = symx_pick(K); symx_note("assign %u to %u", b, a); *s[a] = *s[b]; m[a] = m[b]; if (a == b) symx_reach("self"); break;
        case 1: { symx_note("%u borrows", a); Stream *x = fresh(false); s[a]->setByteStream(*x); m[a].id = x->id; m[a].owned = false; break; }
        case 2: { symx_note("%u owns", a); Stream *x = fresh(true); s[a]->setByteStream(std::unique_ptr<std::istream>(x)); m[a].id = x->id; m[a].owned = true; break; }
        case 3: { symx_note("%u replaced by an owner", a); Stream *x = fresh(true); delete s[a]; s[a] = new Source(std::unique_ptr<std::istream>(x)); m[a] = Model{x->id, true, "", "", ""}; break; }
        case 4: { b = symx_pick(K); if (a == b) return; symx_note("%u replaced by a copy of %u", a, b); delete s[a]; s[a] = new Source(*s[b]); m[a] = m[b]; break; }
        case 5: { symx_note("%u gets ids", a); std::string t(1, symx_char()); s[a]->setPublicId(t); s[a]->setSystemId(t + "s"); s[a]->setEncoding(t + "e"); m[a].pub = t; m[a].sys = t + "s"; m[a].enc = t + "e"; break; }
        case 6: { symx_note("handle from %u", a); SAX::IStreamHandle h(s[a]->getByteStreamHandle()), g; g = h; h.release(); symx_check(h.get() == 0, "a released handle is empty"); symx_check(g.get() == s[a]->getByteStream(), "handles share the stream"); break; }
        case 7: { b = symx_pick(K); if (a == b || m[b].id < 0 || dead[m[b].id] || m[a].id == m[b].id) return; symx_note("%u borrows the stream of %u", a, b); s[a]->setByteStream(*all[m[b].id]); m[a].id = m[b].id; m[a].owned = false; symx_reach("borrowed"); break; }
        default: { symx_note("resolve %u", a); if (m[a].id >= 0 && !dead[m[a].id]) { SAX::InputSourceResolver r(*s[a], default_string_adaptor<std::string>()); symx_check(r.resolve() == s[a]->getByteStream(), "the byte stream is used"); } }
      }
      for (size_t k = 0; k < all.size(); ++k) {
        bool held = false;
        for (unsigned j = 0; j < K; ++j) held |= m[j].owned && m[j].id == (int)k;
        symx_check(dead[k] == (given[k] && !held ? 1 : 0), "an owned stream lives exactly as long as a source holds it");
      }
      for (unsigned j = 0; j < K; ++j) {
        symx_check(s[j]->getByteStream() == (m[j].id < 0 ? (std::istream *)0 : (std::istream *)all[m[j].id]), "the source holds its stream");
        symx_check(s[j]->getPublicId() == m[j].pub && s[j]->getSystemId() == m[j].sys && s[j]->getEncoding() == m[j].enc, "the ids are kept");
      }
    }
    for (unsigned j = 0; j < K; ++j) delete s[j];
  }
  for (size_t k = 0; k < all.size(); ++k) { symx_check(dead[k] == (given[k] ? 1 : 0), "every owned stream is destroyed exactly once"); if (!dead[k]) delete all[k]; }
  symx_reach("done");
}
