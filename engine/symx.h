// Harness API (symbolic build: runtime.cpp, native replay build: replay.cpp)
#pragma once
#include <stddef.h>
#ifdef __cplusplus
#include <string>
extern "C" {
#endif
unsigned char symx_byte(void);                 // fresh unconstrained symbolic byte
unsigned symx_choose(unsigned n);              // fresh symbolic value in [0,n), kept symbolic
void symx_assume(bool c);
void symx_check(bool c, const char *id);       // property assertion; id names the sub-property
void symx_fail(const char *id);                // unconditional violation
void symx_reach(const char *id);               // reachability witness
void symx_observe(const void *p, size_t n);    // part of the observable result (compared on replay)
void symx_observe_u64(unsigned long long v);
long symx_live(void);                          // live heap allocations of the code under test
unsigned symx_concrete(unsigned v);            // fork over the feasible values of v
int symx_replaying(void);                      // true only when a replay should describe itself
void symx_note(const char *fmt, ...);          // human-readable description, replay only
int symx_tier(void);                           // 0 quick, 1 thorough
int symx_param(const char *name, int dflt);    // bound parameter
void symx_main(void);
#ifdef __cplusplus
}
static inline unsigned symx_pick(unsigned n) { return symx_concrete(symx_choose(n)); }
static inline char symx_char() { return (char)symx_byte(); }
static inline std::string symx_string(size_t n) { std::string s(n, 'x'); for (size_t i = 0; i < n; ++i) s[i] = symx_char(); return s; }
static inline void symx_observe(const std::string &s) { symx_observe_u64(s.size()); symx_observe(s.data(), s.size()); }
// character out of a fixed alphabet, kept symbolic
static inline char symx_in(const char *alpha, unsigned n) { unsigned char c = symx_byte(); bool ok = false; for (unsigned i = 0; i < n; ++i) ok |= (c == (unsigned char)alpha[i]); symx_assume(ok); return (char)c; }
#endif
