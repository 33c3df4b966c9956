// UTF-8 <-> wide-character conversion facets.
#include "cvt.h"
#include <convert/utf8ucs2codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf16utf8codecvt.hpp>
#include <vector>
#include "utf8ref.h"
typedef std::string S; typedef std::wstring W;
typedef std::codecvt<wchar_t, char, std::mbstate_t> WC;   // internal wide, external UTF-8
typedef std::codecvt<char, wchar_t, std::mbstate_t> CW;   // internal UTF-8, external wide
enum { ENC, DEC };
// converts wide->utf8 or utf8->wide through whichever facet, in windows of win output units
static bool to_utf8(int which, const wchar_t *f, size_t n, S &out, size_t win, const WC &u8, const CW &u2, const CW &u16, size_t &consumed) {
  char *buf = new char[win]; std::mbstate_t st = std::mbstate_t(); const wchar_t *from = f, *fe = f + n; std::codecvt_base::result r; int steps = 0;
  do { char *tn = 0; const wchar_t *f0 = from;
    r = which == 0 ? u8.out(st, f0, fe, from, buf, buf + win, tn) : which == 1 ? u2.in(st, f0, fe, from, buf, buf + win, tn) : u16.in(st, f0, fe, from, buf, buf + win, tn);
    symx_check(tn >= buf && tn <= buf + win, "out-range"); symx_check(from >= f0 && from <= fe, "in-range");
    out.append(buf, tn - buf); } while (r == std::codecvt_base::partial && ++steps < 12);
  consumed = from - f; delete[] buf;
  return r == std::codecvt_base::ok;
}
static std::codecvt_base::result to_wide(int which, const char *f, size_t n, W &out, size_t win, const WC &u8, const CW &u2, const CW &u16, size_t &consumed) {
  wchar_t *buf = new wchar_t[win]; std::mbstate_t st = std::mbstate_t(); const char *from = f, *fe = f + n; std::codecvt_base::result r; int steps = 0;
  do { wchar_t *tn = 0; const char *f0 = from;
    r = which == 0 ? u8.in(st, f0, fe, from, buf, buf + win, tn) : which == 1 ? u2.out(st, f0, fe, from, buf, buf + win, tn) : u16.out(st, f0, fe, from, buf, buf + win, tn);
    symx_check(tn >= buf && tn <= buf + win, "out-range"); symx_check(from >= f0 && from <= fe, "in-range");
    if (from == f0 && tn == buf) break;
    out.append(buf, tn - buf); } while (r == std::codecvt_base::partial && ++steps < 12);
  consumed = from - f; delete[] buf; return r;
}
void symx_main() {
  static Open<Arabica::convert::utf8ucs2codecvt> u8; static Open<Arabica::convert::ucs2utf8codecvt> u2; static Open<Arabica::convert::utf16utf8codecvt> u16;
  int which = symx_pick(3);
  if (symx_pick(2) == 0) { // every string of BMP characters round-trips and encodes as UTF-8
    size_t n = symx_pick(symx_param("N", 3)) + 1;
    wchar_t *w = new wchar_t[n]; S expect;
    for (size_t i = 0; i < n; ++i) { unsigned c = (unsigned char)symx_char(); c |= (unsigned)(unsigned char)symx_char() << 8; w[i] = (wchar_t)c; expect += utf8_of(c); }
    size_t win = symx_pick(2) ? 3 * n : 3, used;
    S out; bool ok = to_utf8(which, w, n, out, win, u8, u2, u16, used);
    if (symx_replaying()) for (size_t i = 0; i < n; ++i) symx_note("facet %d window %d char U+%04X", which, (int)win, (int)w[i]);
    symx_check(ok, "encode-finishes"); symx_check(used == n, "encode-consumes-everything");
    symx_check(out.size() == expect.size(), "encoded-length");
    bool same = true; for (size_t i = 0; i < out.size(); ++i) same &= out[i] == expect[i];
    symx_check(same, "encode-is-utf8");
    char *tight = new char[expect.size()]; memcpy(tight, expect.data(), expect.size());
    W back; std::codecvt_base::result r = to_wide(which, tight, expect.size(), back, symx_pick(2) ? n : 1, u8, u2, u16, used);
    symx_check(r == std::codecvt_base::ok && used == expect.size(), "decode-finishes"); symx_check(back.size() == n, "decoded-length");
    same = true; for (size_t i = 0; i < n; ++i) same &= back[i] == w[i];
    symx_check(same, "decode-inverts-encode");
    symx_observe(out); symx_reach("encode");
    delete[] tight; delete[] w;
  } else { // every byte string: bounded, and every well-formed prefix decodes correctly
    size_t n = symx_pick(symx_param("M", 5)) + 1;
    char *b = new char[n]; for (size_t i = 0; i < n; ++i) b[i] = symx_char();
    W out; size_t used; std::codecvt_base::result r = to_wide(which, b, n, out, symx_pick(2) ? n + 1 : 1, u8, u2, u16, used);
    symx_check(r == std::codecvt_base::ok ? used == n : used < n, "ok-means-all-consumed");
    size_t i = 0, k = 0; bool wf = true;
    while (i < n) { unsigned cp; size_t l = utf8_one(b + i, n - i, cp); if (!l) { wf = false; break; } symx_check(k < out.size() && (unsigned)out[k] == cp, "well-formed-prefix-decodes"); i += l; ++k; }
    if (wf) { symx_check(r == std::codecvt_base::ok && out.size() == k, "well-formed-decodes-entirely"); symx_reach("wf"); }
    else { // an incomplete final character is left for the next call
      unsigned a = (unsigned char)b[i]; size_t need = a < 0x80 ? 1 : a < 0xC0 ? 0 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : 0;
      if (need && i + need > n) { symx_check(r == std::codecvt_base::partial && out.size() == k && used == i, "truncated-character-left-unread"); symx_reach("trunc"); }
    }
    symx_observe_u64(used); symx_observe_u64(out.size());
    delete[] b;
  }
}
