// base64 codec: for every message of up to N bytes, encode == RFC 4648 reference, decode(encode(m)) == m,
// and splitting the output buffer anywhere changes nothing.
#include "cvt.h"
#include <convert/base64codecvt.hpp>
typedef std::string S;
static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S rfc4648(const S &m) {
  S r;
  for (size_t i = 0; i < m.size(); i += 3) {
    unsigned a = (unsigned char)m[i], b = i + 1 < m.size() ? (unsigned char)m[i + 1] : 0, c = i + 2 < m.size() ? (unsigned char)m[i + 2] : 0;
    r += T[a >> 2]; r += T[(a & 3) << 4 | b >> 4];
    r += i + 1 < m.size() ? T[(b & 15) << 2 | c >> 6] : '='; r += i + 2 < m.size() ? T[c & 63] : '=';
  }
  return r;
}
void symx_main() {
  Open<Arabica::convert::base64codecvt> cv;
  size_t n = symx_pick(symx_param("N", 7) + 1);
  S m = symx_string(n);
  S expect = rfc4648(m);
  // output delivered in windows of k characters (0 = all at once)
  unsigned k = symx_pick(symx_param("K", 4));
  char *buf = new char[64]; S enc;
  std::mbstate_t st = std::mbstate_t();
  char *src = new char[n + 1]; memcpy(src, m.data(), n);
  { char *tight = new char[n]; memcpy(tight, m.data(), n); delete[] src; src = tight; }   // reads past the end are memory errors
  const char *from = src, *fe = src + n; std::codecvt_base::result r; int steps = 0;
  do { char *tn; r = cv.out(st, from, fe, from, buf, buf + (k ? k : 64), tn);
    symx_check(tn >= buf && tn <= buf + (k ? k : 64), "out-range"); symx_check(from >= src && from <= fe, "in-range");
    enc.append(buf, tn - buf); } while (r == std::codecvt_base::partial && ++steps < 40);
  symx_check(r == std::codecvt_base::ok, "encode-finishes");
  if (symx_replaying()) symx_note("window %u, message of %d bytes, encoded as \"%s\", expected \"%s\"", k, (int)n, enc.c_str(), expect.c_str());
  symx_check(enc.size() == expect.size(), "encoded-length");
  bool same = true; for (size_t i = 0; i < enc.size(); ++i) same &= enc[i] == expect[i];
  symx_check(same, "encode-matches-rfc4648");
  symx_observe(enc);
  // decode, again through windows
  std::mbstate_t st2 = std::mbstate_t(); S dec; steps = 0;
  from = expect.data(); fe = from + expect.size();
  do { char *tn; r = cv.in(st2, from, fe, from, buf, buf + (k ? k : 64), tn); dec.append(buf, tn - buf); } while (r == std::codecvt_base::partial && ++steps < 40);
  symx_check(r == std::codecvt_base::ok, "decode-finishes");
  symx_check(dec.size() == n, "decoded-length");
  same = true; for (size_t i = 0; i < n && i < dec.size(); ++i) same &= dec[i] == m[i];
  symx_check(same, "decode-inverts-encode");
  if (n >= 5) symx_reach("long");
  symx_observe(dec);
  delete[] buf; delete[] src;
}
