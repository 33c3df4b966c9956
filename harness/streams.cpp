// Converting streams and adaptors, and the string adaptors built on them.
#include "symx.h"
#include "utf8ref.h"
#include <sstream>
#include <cstring>
#include <new>
#include <Arabica/StringAdaptor.hpp>
#include <io/convert_adaptor.hpp>
#include <convert/base64codecvt.hpp>
typedef std::string S; typedef std::wstring W;
typedef Arabica::default_string_adaptor<S> NA; typedef Arabica::default_string_adaptor<W> WA;
typedef Arabica::io::iconvert_adaptor<wchar_t, std::char_traits<wchar_t>, char> IA;
typedef Arabica::io::oconvert_adaptor<wchar_t, std::char_traits<wchar_t>, char> OA;
static unsigned bmp() { unsigned c = (unsigned char)symx_char(); c |= (unsigned)(unsigned char)symx_char() << 8; symx_assume(c != 0); return c; }
static const std::locale &loc() { return NA::utf8ucs2_locale(); }
void symx_main() {
  int mode = symx_pick(6);
  if (mode == 0) { // wide -> narrow -> wide through the adaptors
    size_t n = symx_pick(symx_param("N", 3)) + 1; W w; S e;
    for (size_t i = 0; i < n; ++i) { unsigned c = bmp(); w += (wchar_t)c; e += utf8_of(c); }
    S s = WA::asStdString(w), s2 = NA::construct_from_utf16(w.c_str()), s3 = NA::construct_from_utf16(w.data(), (int)n);
    bool ok = s.size() == e.size() && s2.size() == e.size() && s3.size() == e.size();
    symx_check(ok, "narrow-length");
    for (size_t i = 0; i < e.size(); ++i) ok &= s[i] == e[i] && s2[i] == e[i] && s3[i] == e[i];
    symx_check(ok, "narrow-is-utf8");
    W b = WA::construct_from_utf8(s.c_str()), b2 = WA::construct_from_utf8(s.data(), (int)s.size()), b3 = NA::asStdWString(s);
    ok = b.size() == n && b2.size() == n && b3.size() == n;
    symx_check(ok, "wide-length");
    for (size_t i = 0; i < n; ++i) ok &= b[i] == w[i] && b2[i] == w[i] && b3[i] == w[i];
    symx_check(ok, "wide-roundtrip");
    symx_observe(s); symx_reach("strings");
  } else if (mode == 1) { // any byte string widens in finite time; the well-formed prefix survives
    size_t n = symx_pick(symx_param("M", 4) + 1); S s = symx_string(n);
    W w = NA::asStdWString(s); W w2 = WA::construct_from_utf8(s.data(), (int)n);
    symx_check(w.size() <= n && w == w2, "widen-agrees");
    size_t i = 0, k = 0; while (i < n) { unsigned cp; size_t l = utf8_one(s.data() + i, n - i, cp); if (!l) break; symx_check(k < w.size() && (unsigned)w[k] == cp, "widen-prefix"); i += l; ++k; }
    symx_observe_u64(w.size()); symx_reach("anybytes");
  } else if (mode == 2) { // reading through iconvert_adaptor, chunk boundary inside a character
    size_t n = symx_pick(symx_param("N", 3)) + 1; size_t pad = symx_pick(2) ? 1021 + symx_pick(4) : 0;
    S e(pad, 'p'); W w(pad, L'p'); for (size_t i = 0; i < n; ++i) { unsigned c = bmp(); w += (wchar_t)c; e += utf8_of(c); }
    std::istringstream src(e); IA in(src); in.imbue(loc());
    bool unget = symx_pick(2); W got; size_t guard = 0; bool ok = true;
    for (;;) { std::char_traits<wchar_t>::int_type c = in.get(); if (!in || ++guard > 1100) break; got += (wchar_t)c;
      if (unget && got.size() == pad + 1) { in.unget(); ok = ok && in.good() && in.get() == c; } }
    symx_check(ok, "unget-returns-same"); symx_check(got.size() == w.size(), "read-length");
    for (size_t i = 0; i < got.size() && i < w.size(); ++i) ok &= got[i] == w[i];
    symx_check(ok, "read-content");
    symx_reach("adaptor-in");
  } else if (mode == 3) { // writing through oconvert_adaptor, flush at any point
    size_t n = symx_pick(symx_param("N", 3)) + 1; size_t pad = symx_pick(2) ? 1022 + symx_pick(3) : 0; unsigned fl = symx_pick(1u << n);
    std::ostringstream dst; S e(pad, 'p');
    { OA out(dst); out.imbue(loc()); for (size_t i = 0; i < pad; ++i) out.put(L'p');
      for (size_t i = 0; i < n; ++i) { unsigned c = bmp(); out.put((wchar_t)c); e += utf8_of(c); if (fl >> i & 1) out.flush(); }
      symx_check(out.good(), "write-good"); }
    S got = dst.str(); bool ok = true;
    symx_check(got.size() == e.size(), "written-length");
    for (size_t i = 0; i < e.size(); ++i) ok &= got[i] == e[i];
    symx_check(ok, "written-content");
    symx_observe(got); symx_reach("adaptor-out");
  } else if (mode == 4) { // an adaptor's result does not depend on what its memory held before
    typedef Arabica::io::oconvert_adaptor<char> OC; typedef Arabica::io::iconvert_adaptor<char> IC;
    std::locale b64(std::locale::classic(), new Arabica::convert::base64codecvt);
    void *mem = operator new(std::max(sizeof(OC), sizeof(IC)));
    unsigned char junk = symx_pick(5);  for (size_t i = 0; i < std::max(sizeof(OC), sizeof(IC)); ++i) ((unsigned char *)mem)[i] = junk;
    S got;
    if (symx_pick(2)) { std::ostringstream dst; OC *o = new (mem) OC(dst); o->imbue(b64); o->put('a'); o->put('b'); o->put('c'); o->flush(); o->~OC(); got = dst.str(); symx_check(got.size() == 4 && got[0] == 'Y' && got[1] == 'W' && got[2] == 'J' && got[3] == 'j', "adaptor-ignores-old-memory"); }
    else { std::istringstream src("YWJj"); IC *o = new (mem) IC(src); o->imbue(b64); char c; while (o->get(c) && got.size() < 9) got += c; o->~IC(); symx_check(got.size() == 3 && got[0] == 'a' && got[1] == 'b' && got[2] == 'c', "adaptor-ignores-old-memory"); }
    operator delete(mem); symx_reach("fresh");
  } else { // an adaptor nothing was written to
    std::ostringstream dst; { OA out(dst); out.imbue(loc()); if (symx_pick(2)) out.flush(); }
    symx_check(dst.str().empty(), "unused-writes-nothing"); symx_reach("unused");
  }
}
