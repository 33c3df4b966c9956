// ISO-8859-1 <-> UTF-8, UTF-16BE/LE <-> wide, rot13 and the default char/wchar_t facet.
#include "cvt.h"
#include <convert/utf8iso88591codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/rot13codecvt.hpp>
typedef std::string S; typedef std::wstring W;
template<class F, class A, class B> static std::codecvt_base::result run(bool out, const F &f, const A *src, size_t n, std::basic_string<B> &res, size_t win, size_t &used);
template<class CV> struct Dir { };
template<class CV, class From, class To, class Call> static std::codecvt_base::result drive(Call call, const From *f, size_t n, std::basic_string<To> &res, size_t win, size_t &used) {
  To *buf = new To[win]; std::mbstate_t st = std::mbstate_t(); const From *from = f, *fe = f + n; std::codecvt_base::result r; int steps = 0;
  do { To *tn = 0; const From *f0 = from; r = call(st, f0, fe, from, buf, buf + win, tn);
    symx_check(tn >= buf && tn <= buf + win, "out-range"); symx_check(from >= f0 && from <= fe, "in-range");
    if (from == f0 && tn == buf) break;
    res.append(buf, tn - buf); } while (r == std::codecvt_base::partial && ++steps < 24);
  used = from - f; delete[] buf; return r;
}
#define CALLX(obj, m, F, T) [&](std::mbstate_t &st_, const F *a_, const F *b_, const F *&c_, T *d_, T *e_, T *&g_) { return obj.m(st_, a_, b_, c_, d_, e_, g_); }
template<class C> struct Tight { C *p; size_t n; Tight(const std::basic_string<C> &s) : p(new C[s.size()]), n(s.size()) { for (size_t i = 0; i < n; ++i) p[i] = s[i]; } ~Tight() { delete[] p; } };
void symx_main() {
  int mode = symx_pick(5); size_t used;
  if (mode == 0) { // latin-1 text -> utf-8 -> latin-1
    Open<Arabica::convert::utf8iso88591codecvt> a; Open<Arabica::convert::iso88591utf8codecvt> b; int which = symx_pick(2);
    size_t n = symx_pick(symx_param("N", 5)) + 1; S m = symx_string(n), expect;
    for (size_t i = 0; i < n; ++i) { unsigned c = (unsigned char)m[i]; if (c < 0x80) expect += (char)c; else { expect += (char)(0xC0 | c >> 6); expect += (char)(0x80 | (c & 63)); } }
    Tight<char> t(m); S out; size_t win = symx_pick(2) ? 2 * n : 3;
    std::codecvt_base::result r = which ? drive<int, char, char>(CALLX(b, in, char, char), t.p, n, out, win, used) : drive<int, char, char>(CALLX(a, out, char, char), t.p, n, out, win, used);
    symx_check(r == std::codecvt_base::ok && used == n, "latin-encode-finishes");
    symx_check(out.size() == expect.size(), "latin-encoded-length");
    bool same = true; for (size_t i = 0; i < out.size(); ++i) same &= out[i] == expect[i];
    symx_check(same, "latin-encode-is-utf8");
    Tight<char> e(expect); S back; win = symx_pick(2) ? n : 1;
    r = which ? drive<int, char, char>(CALLX(b, out, char, char), e.p, e.n, back, win, used) : drive<int, char, char>(CALLX(a, in, char, char), e.p, e.n, back, win, used);
    symx_check(r == std::codecvt_base::ok && used == e.n, "latin-decode-finishes");
    symx_check(back.size() == n, "latin-decoded-length");
    same = true; for (size_t i = 0; i < n; ++i) same &= back[i] == m[i];
    symx_check(same, "latin-roundtrip");
    symx_observe(out); symx_reach("latin");
  } else if (mode == 1) { // arbitrary bytes as utf-8 -> latin-1: bounded; unrepresentable characters become '?'
    Open<Arabica::convert::utf8iso88591codecvt> a; Open<Arabica::convert::iso88591utf8codecvt> b; int which = symx_pick(2);
    size_t n = symx_pick(symx_param("M", 4)) + 1; S m = symx_string(n); Tight<char> t(m); S out; size_t win = symx_pick(2) ? n : 1;
    std::codecvt_base::result r = which ? drive<int, char, char>(CALLX(b, out, char, char), t.p, n, out, win, used) : drive<int, char, char>(CALLX(a, in, char, char), t.p, n, out, win, used);
    symx_check(used <= n, "utf8-in-range"); symx_check(r == std::codecvt_base::ok ? used == n : used < n, "utf8-ok-means-all-consumed");
    unsigned c0 = (unsigned char)m[0];
    if (n == 3 && c0 >= 0xE1 && c0 < 0xF0 && ((unsigned char)m[1] & 0xC0) == 0x80 && ((unsigned char)m[2] & 0xC0) == 0x80) { symx_check(out.size() == 1 && out[0] == '?', "unrepresentable-becomes-question-mark"); symx_reach("qmark"); }
    symx_observe(out);
  } else if (mode == 2) { // UTF-16
    Open<Arabica::convert::utf16beucs2codecvt> be; Open<Arabica::convert::utf16leucs2codecvt> le; int which = symx_pick(2);
    size_t n = symx_pick(symx_param("N", 5)) + 1; W m; S expect;
    for (size_t i = 0; i < n; ++i) { unsigned char hi = symx_byte(), lo = symx_byte(); m += (wchar_t)((unsigned)hi << 8 | lo); expect += (char)(which ? hi : lo); expect += (char)(which ? lo : hi); }
    Tight<wchar_t> t(m); S out; size_t win = symx_pick(2) ? 2 * n : 2;
    std::codecvt_base::result r = which ? drive<int, wchar_t, char>(CALLX(be, out, wchar_t, char), t.p, n, out, win, used) : drive<int, wchar_t, char>(CALLX(le, out, wchar_t, char), t.p, n, out, win, used);
    symx_check(r == std::codecvt_base::ok && used == n && out.size() == 2 * n, "utf16-encode-finishes");
    bool same = true; for (size_t i = 0; i < out.size(); ++i) same &= out[i] == expect[i];
    symx_check(same, "utf16-encode");
    size_t cut = symx_pick(2); Tight<char> e(expect.substr(0, 2 * n - cut)); W back; win = symx_pick(2) ? n : 1;
    r = which ? drive<int, char, wchar_t>(CALLX(be, in, char, wchar_t), e.p, e.n, back, win, used) : drive<int, char, wchar_t>(CALLX(le, in, char, wchar_t), e.p, e.n, back, win, used);
    symx_check(cut ? r == std::codecvt_base::partial && used == 2 * n - 2 : r == std::codecvt_base::ok && used == 2 * n, "utf16-decode-finishes");
    symx_check(back.size() == n - cut, "utf16-decoded-length");
    same = true; for (size_t i = 0; i < back.size(); ++i) same &= back[i] == m[i];
    symx_check(same, "utf16-roundtrip");
    symx_observe(out); symx_reach("utf16");
  } else if (mode == 3) { // rot13
    Open<Arabica::convert::rot13codecvt> f; size_t n = symx_pick(symx_param("N", 5)) + 1; S m = symx_string(n); Tight<char> t(m); S out, back; size_t win = symx_pick(2) ? n : 1;
    std::codecvt_base::result r = drive<int, char, char>(CALLX(f, out, char, char), t.p, n, out, win, used);
    symx_check(r == std::codecvt_base::ok && used == n && out.size() == n, "rot13-finishes");
    bool ok = true;
    for (size_t i = 0; i < n; ++i) { unsigned c = (unsigned char)m[i], lc = c | 32; bool letter = lc >= 'a' && lc <= 'z' && c < 128; unsigned e = letter ? (lc < 'n' ? c + 13 : c - 13) : c; ok &= (unsigned char)out[i] == e; }
    symx_check(ok, "rot13-letters-only");
    Tight<char> t2(out); r = drive<int, char, char>(CALLX(f, in, char, char), t2.p, n, back, win, used);
    ok = back.size() == n; for (size_t i = 0; i < n && ok; ++i) if (back[i] != m[i]) ok = false;
    symx_check(ok, "rot13-involution");
    symx_reach("rot13");
  } else { // default char <-> wchar_t facet: never past either window
    Open<std::codecvt<char, wchar_t, std::mbstate_t> > f; size_t n = symx_pick(3) + 1; S m = symx_string(n); Tight<char> t(m); W out; size_t win = symx_pick(3) + 1;
    drive<int, char, wchar_t>(CALLX(f, out, char, wchar_t), t.p, n, out, win, used);
    bool same = out.size() == n; for (size_t i = 0; i < n && i < out.size(); ++i) same &= out[i] == (wchar_t)m[i];
    symx_check(same, "default-facet-widens");
    symx_reach("default");
  }
}
