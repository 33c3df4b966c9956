#pragma once
#include <string>
static std::string utf8_of(unsigned c) {
  std::string r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
  else { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  return r;
}
// one well-formed character of at most three bytes at s; returns its length or 0
static size_t utf8_one(const char *s, size_t n, unsigned &cp) {
  unsigned a = (unsigned char)s[0];
  if (a < 0x80) { cp = a; return 1; }
  auto cont = [&](size_t k) { return k < n && ((unsigned char)s[k] & 0xC0) == 0x80; };
  auto b = [&](size_t k) { return (unsigned)(unsigned char)s[k] & 63; };
  if (a >= 0xC2 && a < 0xE0 && cont(1)) { cp = (a & 31) << 6 | b(1); return 2; }
  if (a >= 0xE0 && a < 0xF0 && cont(1) && cont(2)) { cp = (a & 15) << 12 | b(1) << 6 | b(2); return cp >= 0x800 ? 3 : 0; }
  return 0;
}
