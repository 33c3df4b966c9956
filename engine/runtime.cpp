// symx runtime: expressions, shadow memory, path exploration by fork, Z3 decisions.
// Compiled without instrumentation and linked with the instrumented module.
#include <dlfcn.h>
#include "ops.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <string>
#include <strings.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <wchar.h>
#include <wctype.h>
#include <ctype.h>

extern "C" int __asan_address_is_poisoned(void const volatile *addr) __attribute__((weak));
extern "C" void *__asan_region_is_poisoned(void *beg, size_t size) __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *)) __attribute__((weak));
extern "C" const char *__asan_get_report_description() __attribute__((weak));
extern "C" int __asan_report_present() __attribute__((weak));

extern "C" void symx_main(void);

// ---------------------------------------------------------------- globals seen by instrumented code
extern "C" {
u8 sx_pages[65536];
void *sx_callee;
u64 sx_args[64];
u64 sx_ret[16];
u8 *sx_cov;
}
static int in_rt = 0;
struct RT { RT() { ++in_rt; } ~RT() { --in_rt; } };

// ---------------------------------------------------------------- shared control block
enum { MAXREACH = 64, MAXIDS = 128, MAXREASON = 64, MAXCOV = 1 << 17, MAXSAMPLE = 4096, MAXPROF = 1 << 14 };
struct NamedCount { std::atomic<int> used; char name[120]; std::atomic<u64> n, m; };
enum { CACHE_N = 1 << 18 };
struct CacheEnt { std::atomic<int> state; int res; u64 h1, h2; u8 m[40]; };
static CacheEnt *cache;
struct Ctl {
  std::atomic<int> srv_busy[16]; std::atomic<u64> seq, cache_hits;
  std::atomic<int> slots, stop, nviol, nknown;
  std::atomic<u64> started, finished, incomplete, pruned, forks, branches, queries, sat, unsat, unknown, solver_us, max_query_us, checks_sym, checks_conc, concs, nsample, pathid, exprs;
  NamedCount reach[MAXREACH], ids[MAXIDS], reasons[MAXREASON], icalls[256];
  struct { std::atomic<u64> pc; std::atomic<u64> n; } prof[MAXPROF];
  u8 cov[MAXCOV];
};
static Ctl *ctl;
static double t_start, t_deadline;
static std::string outdir;
static int maxviol = 8, maxsamples = 64, tier = 0, nslots = 8, prof_on = 0, maxPerId = 2;
static u64 rng_seed = 1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static NamedCount *named(NamedCount *tab, int n, const char *name) {
  for (int i = 0; i < n; ++i) {
    int u = tab[i].used.load();
    if (u == 2) { if (!strncmp(tab[i].name, name, 119)) return &tab[i]; continue; }
    if (u == 0) {
      int z = 0;
      if (tab[i].used.compare_exchange_strong(z, 1)) { strncpy(tab[i].name, name, 119); tab[i].used = 2; return &tab[i]; }
    }
    while (tab[i].used.load() == 1) usleep(10);
    if (!strncmp(tab[i].name, name, 119)) return &tab[i];
  }
  return &tab[n - 1];
}

// ---------------------------------------------------------------- bump allocator
static char *bump_p, *bump_e;
static void *bump(size_t n) {
  n = (n + 15) & ~15ul;
  if (bump_p + n > bump_e) {
    size_t c = std::max<size_t>(n, 1 << 20);
    bump_p = (char *)mmap(0, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    bump_e = bump_p + c;
  }
  void *r = bump_p; bump_p += n; return r;
}

// ---------------------------------------------------------------- expressions
enum { NB = 256, NW = NB / 64 };
struct Sup { u64 b[NW];
  bool any() const { u64 a = 0; for (int i = 0; i < NW; ++i) a |= b[i]; return a; }
  int count() const { int c = 0; for (int i = 0; i < NW; ++i) c += __builtin_popcountll(b[i]); return c; }
  bool test(int i) const { return b[i >> 6] >> (i & 63) & 1; }
  void set(int i) { b[i >> 6] |= 1ull << (i & 63); }
  void reset(int i) { b[i >> 6] &= ~(1ull << (i & 63)); }
  int first() const { for (int i = 0; i < NW; ++i) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; }
  Sup operator|(const Sup &o) const { Sup r; for (int i = 0; i < NW; ++i) r.b[i] = b[i] | o.b[i]; return r; }
  bool hits(const Sup &o) const { u64 a = 0; for (int i = 0; i < NW; ++i) a |= b[i] & o.b[i]; return a; }
};
struct Table { int n; u64 *key, *val; };
struct M256 { u64 b[4];
  bool get(int i) const { return b[i >> 6] >> (i & 63) & 1; } void set(int i) { b[i >> 6] |= 1ull << (i & 63); }
  int count() const { int c = 0; for (int i = 0; i < 4; ++i) c += __builtin_popcountll(b[i]); return c; }
  int first() const { for (int i = 0; i < 4; ++i) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; } };
struct E {
  u8 op, w; u8 nk; bool fp; u32 id;
  u64 val;          // CONST value, VAR index, EXTRACT low bit, predicate/opcode
  E *k[3];
  Sup sup;
  u64 ev; u32 epoch; u32 hasMask;
  M256 *mask; u64 sh; u32 wi, wseq;
  E *hnext;
};
static u32 g_epoch = 1, g_id = 0;
enum { HB = 14 };
static E *htab[1 << HB];
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

static double d_of(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 u_of(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float f_of(u64 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u64 u_off(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static double fp_of(u64 v, unsigned w) { return w == 32 ? (double)f_of(v) : d_of(v); }
static u64 fp_to(double d, unsigned w) { return w == 32 ? u_off((float)d) : u_of(d); }

static u64 tblLookup(Table *t, u64 k) {
  int lo = 0, hi = t->n - 1;
  while (lo <= hi) { int m = (lo + hi) / 2; if (t->key[m] == k) return t->val[m]; if (t->key[m] < k) lo = m + 1; else hi = m - 1; }
  return 0;
}
// concrete semantics; w: operand width (of k[0]) unless noted
static u64 apply(u8 op, unsigned w, unsigned ow, u64 val, u64 a, u64 b, u64 c) {
  u64 m = maskw(w);
  switch (op) {
  case OP_ADD: return (a + b) & m; case OP_SUB: return (a - b) & m; case OP_MUL: return (a * b) & m;
  case OP_UDIV: return b ? a / b : m; case OP_UREM: return b ? a % b : a;
  case OP_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return (x >= 0 ? ~0ull : 1) & m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
  case OP_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case OP_SHL: return b >= w ? 0 : (a << b) & m; case OP_LSHR: return b >= w ? 0 : (a >> b);
  case OP_ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
  case OP_AND: return a & b; case OP_OR: return a | b; case OP_XOR: return a ^ b;
  case OP_FADD: return w == 32 ? u_off(f_of(a) + f_of(b)) : u_of(d_of(a) + d_of(b));
  case OP_FSUB: return w == 32 ? u_off(f_of(a) - f_of(b)) : u_of(d_of(a) - d_of(b));
  case OP_FMUL: return w == 32 ? u_off(f_of(a) * f_of(b)) : u_of(d_of(a) * d_of(b));
  case OP_FDIV: return w == 32 ? u_off(f_of(a) / f_of(b)) : u_of(d_of(a) / d_of(b));
  case OP_EQ: return a == b; case OP_ULT: return a < b; case OP_ULE: return a <= b;
  case OP_SLT: return sx(a, w) < sx(b, w); case OP_SLE: return sx(a, w) <= sx(b, w);
  case OP_ZEXT: return a; case OP_SEXT: return (u64)sx(a, w) & maskw(ow);
  case OP_EXTRACT: return (a >> val) & maskw(ow);
  case OP_CONCAT: return 0; // handled by caller
  case OP_ITE: return a ? b : c;
  case OP_TABLE: return tblLookup((Table *)val, a);
  case OP_FEQ: return fp_of(a, w) == fp_of(b, w); case OP_FLT: return fp_of(a, w) < fp_of(b, w); case OP_FLE: return fp_of(a, w) <= fp_of(b, w);
  case OP_FUNO: return std::isnan(fp_of(a, w)) || std::isnan(fp_of(b, w));
  case OP_FP1: {
    double x = fp_of(a, w), r = x;
    switch (val) { case C_FLOOR: r = floor(x); break; case C_CEIL: r = ceil(x); break; case C_TRUNCF: r = trunc(x); break; case C_ROUND: r = round(x); break; case C_RINT: r = rint(x); break; case C_SQRT: r = sqrt(x); break; }
    return fp_to(r, w); }
  case OP_FPCONV:
    switch (val) {
    case C_SITOFP: return ow == 32 ? u_off((float)sx(a, w)) : u_of((double)sx(a, w));
    case C_UITOFP: return ow == 32 ? u_off((float)a) : u_of((double)a);
    case C_FPTOSI: { double x = trunc(fp_of(a, w)); double lim = ldexp(1.0, ow - 1); if (!(x >= -lim && x < lim)) return (1ull << (ow - 1)); return (u64)(i64)x & maskw(ow); }
    case C_FPTOUI: { double x = trunc(fp_of(a, w)); if (!(x > -1 && x < ldexp(1.0, ow))) return 0; return (u64)x & maskw(ow); }
    case C_FPEXT: return u_of((double)f_of(a));
    case C_FPTRUNC: return u_off((float)d_of(a));
    }
  }
  return 0;
}
static E *mkraw(u8 op, unsigned w, u64 val, E *a = 0, E *b = 0, E *c = 0) {
  u64 h = op * 0x9E3779B97F4A7C15ull ^ w * 0xC2B2AE3D27D4EB4Full ^ val * 0x165667B19E3779F9ull;
  if (a) h = (h ^ a->id) * 0xff51afd7ed558ccdull; if (b) h = (h ^ (u64)b->id << 20) * 0xc4ceb9fe1a85ec53ull; if (c) h = (h ^ (u64)c->id << 40) * 0xff51afd7ed558ccdull;
  h ^= h >> 32; u32 ix = h & ((1 << HB) - 1);
  for (E *e = htab[ix]; e; e = e->hnext) if (e->op == op && e->w == w && e->val == val && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
  E *e = (E *)bump(sizeof(E));
  memset(e, 0, sizeof *e);
  e->op = op; e->w = w; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->id = ++g_id; e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
  for (int i = 0; i < e->nk; ++i) { e->sup = e->sup | e->k[i]->sup; e->fp |= e->k[i]->fp; }
  if (op == OP_VAR) e->sup.set((int)val);
  if ((op >= OP_FADD && op <= OP_FREM) || op >= OP_FEQ) e->fp = true;
  u64 sv = val;
  if (op == OP_TABLE) { Table *t = (Table *)val; sv = 77; for (int i = 0; i < t->n; ++i) sv = (sv ^ t->key[i] * 0x9E3779B97F4A7C15ull ^ t->val[i]) * 0xff51afd7ed558ccdull; }
  u64 q = (op * 1000003ull + w) * 0x9E3779B97F4A7C15ull ^ sv; q ^= q >> 29; q *= 0xbf58476d1ce4e5b9ull;
  for (int i = 0; i < e->nk; ++i) { q = (q ^ (q >> 31) ^ e->k[i]->sh) * 0x94d049bb133111ebull; q = q << 17 | q >> 47; }
  e->sh = q ^ q >> 32;
  e->hnext = htab[ix]; htab[ix] = e;
  return e;
}
static E *mkc(unsigned w, u64 v) { return mkraw(OP_CONST, w, v & maskw(w)); }
static bool isc(E *e) { return e->op == OP_CONST; }
static E *mk_extract(E *a, unsigned lo, unsigned w);
static E *mk_zext(E *a, unsigned w);
static E *mk_not(E *a);
static E *mk_ite(E *c, E *a, E *b);
static E *mk_bin(u8 op, E *a, E *b);
static E *mk_cmp(u8 op, E *a, E *b);

static u64 g_model_unused;
static u64 eval(E *e, const u8 *model) {
  if (e->op == OP_CONST) return e->val;
  if (e->epoch == g_epoch) return e->ev;
  u64 r;
  switch (e->op) {
  case OP_VAR: r = model[e->val]; break;
  case OP_ITE: r = eval(e->k[0], model) ? eval(e->k[1], model) : eval(e->k[2], model); break;
  case OP_CONCAT: r = eval(e->k[0], model) << e->k[1]->w | eval(e->k[1], model); break;
  default: {
    u64 a = eval(e->k[0], model), b = e->nk > 1 ? eval(e->k[1], model) : 0;
    r = apply(e->op, e->k[0]->w, e->w, e->val, a, b, 0);
  } }
  e->ev = r; e->epoch = g_epoch;
  return r;
}
static u64 evalm(E *e, const u8 *model) { ++g_epoch; return eval(e, model); }

static E *mk_concat(E *h, E *l) {
  if (isc(h) && isc(l)) return mkc(h->w + l->w, h->val << l->w | l->val);
  if (isc(h) && h->val == 0) return mk_zext(l, h->w + l->w);
  if (h->op == OP_EXTRACT && l->op == OP_EXTRACT && h->k[0] == l->k[0] && h->val == l->val + l->w) return mk_extract(h->k[0], l->val, h->w + l->w);
  // extract above a zext'ed low part
  return mkraw(OP_CONCAT, h->w + l->w, 0, h, l);
}
static E *mk_extract(E *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isc(a)) return mkc(w, a->val >> lo);
  switch (a->op) {
  case OP_EXTRACT: return mk_extract(a->k[0], lo + a->val, w);
  case OP_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mk_extract(a->k[1], lo, w);
    if (lo >= lw) return mk_extract(a->k[0], lo - lw, w);
    break; }
  case OP_ZEXT:
    if (lo >= a->k[0]->w) return mkc(w, 0);
    if (lo + w <= a->k[0]->w) return mk_extract(a->k[0], lo, w);
    if (lo == 0) return mk_zext(a->k[0], w);
    break;
  case OP_SEXT:
    if (lo + w <= a->k[0]->w) return mk_extract(a->k[0], lo, w);
    if (lo == 0) return mkraw(OP_SEXT, w, 0, a->k[0]);
    break;
  case OP_AND: case OP_OR: case OP_XOR:
    return mk_bin(a->op, mk_extract(a->k[0], lo, w), mk_extract(a->k[1], lo, w));
  case OP_ADD: case OP_SUB: case OP_MUL:
    if (lo == 0) return mk_bin(a->op, mk_extract(a->k[0], 0, w), mk_extract(a->k[1], 0, w));
    break;
  case OP_ITE:
    if (isc(a->k[1]) || isc(a->k[2])) return mk_ite(a->k[0], mk_extract(a->k[1], lo, w), mk_extract(a->k[2], lo, w));
    break;
  default: break;
  }
  return mkraw(OP_EXTRACT, w, lo, a);
}
static E *mk_zext(E *a, unsigned w) {
  if (w == a->w) return a;
  if (isc(a)) return mkc(w, a->val);
  if (a->op == OP_ZEXT) return mk_zext(a->k[0], w);
  if (a->op == OP_ITE && isc(a->k[1]) && isc(a->k[2])) return mk_ite(a->k[0], mkc(w, a->k[1]->val), mkc(w, a->k[2]->val));
  return mkraw(OP_ZEXT, w, 0, a);
}
static E *mk_sext(E *a, unsigned w) {
  if (w == a->w) return a;
  if (isc(a)) return mkc(w, (u64)sx(a->val, a->w));
  if (a->op == OP_ZEXT) return mk_zext(a->k[0], w);
  if (a->op == OP_SEXT) return mk_sext(a->k[0], w);
  if (a->op == OP_ITE && isc(a->k[1]) && isc(a->k[2])) return mk_ite(a->k[0], mk_sext(a->k[1], w), mk_sext(a->k[2], w));
  return mkraw(OP_SEXT, w, 0, a);
}
static E *mk_not(E *a) {
  if (isc(a)) return mkc(1, !a->val);
  if (a->op == OP_XOR && isc(a->k[1]) && a->k[1]->val == 1) return a->k[0];
  switch (a->op) {
  case OP_ULT: return mk_cmp(OP_ULE, a->k[1], a->k[0]); case OP_ULE: return mk_cmp(OP_ULT, a->k[1], a->k[0]);
  case OP_SLT: return mk_cmp(OP_SLE, a->k[1], a->k[0]); case OP_SLE: return mk_cmp(OP_SLT, a->k[1], a->k[0]);
  }
  return mkraw(OP_XOR, 1, 0, a, mkc(1, 1));
}
static E *mk_ite(E *c, E *a, E *b) {
  if (isc(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == OP_XOR && isc(c->k[1]) && c->w == 1 && c->k[1]->val == 1) return mk_ite(c->k[0], b, a);
  if (a->w == 1) {
    if (isc(a) && isc(b)) return a->val ? c : mk_not(c);
    if (isc(a)) return a->val ? mk_bin(OP_OR, c, b) : mk_bin(OP_AND, mk_not(c), b);
    if (isc(b)) return b->val ? mk_bin(OP_OR, mk_not(c), a) : mk_bin(OP_AND, c, a);
  }
  if (a->op == OP_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == OP_ITE && b->k[0] == c) b = b->k[2];
  return mkraw(OP_ITE, a->w, 0, c, a, b);
}
static bool commut(u8 op) { return op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR || op == OP_EQ; }
static E *mk_bin(u8 op, E *a, E *b) {
  unsigned w = a->w; u64 m = maskw(w);
  if (isc(a) && isc(b)) return mkc(w, apply(op, w, w, 0, a->val, b->val, 0));
  if (commut(op) && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
  switch (op) {
  case OP_ADD: if (isc(b)) { if (!b->val) return a; if (a->op == OP_ADD && isc(a->k[1])) return mk_bin(OP_ADD, a->k[0], mkc(w, a->k[1]->val + b->val)); } break;
  case OP_SUB: if (a == b) return mkc(w, 0); if (isc(b)) return mk_bin(OP_ADD, a, mkc(w, 0 - b->val)); break;
  case OP_MUL: if (isc(b)) { if (!b->val) return b; if (b->val == 1) return a; } break;
  case OP_AND:
    if (a == b) return a;
    if (isc(b)) {
      if (!b->val) return b; if (b->val == m) return a;
      // low mask -> zext(extract)
      if ((b->val & (b->val + 1)) == 0) { unsigned lw = __builtin_popcountll(b->val); return mk_zext(mk_extract(a, 0, lw), w); }
      if (a->op == OP_AND && isc(a->k[1])) return mk_bin(OP_AND, a->k[0], mkc(w, a->k[1]->val & b->val));
    }
    if (w == 1 && (a == mk_not(b))) return mkc(1, 0);
    break;
  case OP_OR:
    if (a == b) return a;
    if (isc(b)) { if (!b->val) return a; if (b->val == m) return b; }
    if (w == 1 && (a == mk_not(b))) return mkc(1, 1);
    break;
  case OP_XOR: if (a == b) return mkc(w, 0); if (isc(b)) { if (!b->val) return a; if (w == 1 && b->val == 1) return mk_not(a); } break;
  case OP_SHL: if (isc(b)) { if (!b->val) return a; if (b->val >= w) return mkc(w, 0); return mk_concat(mk_extract(a, 0, w - b->val), mkc(b->val, 0)); } break;
  case OP_LSHR: if (isc(b)) { if (!b->val) return a; if (b->val >= w) return mkc(w, 0); return mk_zext(mk_extract(a, b->val, w - b->val), w); } break;
  case OP_ASHR: if (isc(b)) { if (!b->val) return a; u64 s = b->val >= w ? w - 1 : b->val; return mk_sext(mk_extract(a, s, w - s), w); } break;
  case OP_UDIV: if (isc(b) && b->val && !(b->val & (b->val - 1))) return mk_bin(OP_LSHR, a, mkc(w, __builtin_ctzll(b->val))); break;
  case OP_UREM: if (isc(b) && b->val && !(b->val & (b->val - 1))) return mk_bin(OP_AND, a, mkc(w, b->val - 1)); break;
  }
  if ((op == OP_AND || op == OP_OR || op == OP_XOR) && isc(b)) {
    if (a->op == OP_ZEXT) {
      unsigned lw = a->k[0]->w; u64 hi = b->val & ~maskw(lw);
      if (op == OP_AND || hi == 0) return mk_zext(mk_bin(op, a->k[0], mkc(lw, b->val)), w);
    }
  }
  if (isc(b) && a->op == OP_ITE && (isc(a->k[1]) && isc(a->k[2])) && op != OP_UDIV && op != OP_SDIV && op != OP_UREM && op != OP_SREM)
    return mk_ite(a->k[0], mk_bin(op, a->k[1], b), mk_bin(op, a->k[2], b));
  return mkraw(op, w, 0, a, b);
}
static E *mk_cmp(u8 op, E *a, E *b) {
  unsigned w = a->w;
  if (isc(a) && isc(b)) return mkc(1, apply(op, w, 1, 0, a->val, b->val, 0));
  if (a == b) return mkc(1, op == OP_EQ || op == OP_ULE || op == OP_SLE);
  if (op == OP_EQ && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
  if (w == 1 && op == OP_EQ && isc(b)) return b->val ? a : mk_not(a);
  // zext comparisons narrow
  auto narrow = [&](E *x) { return x->op == OP_ZEXT ? x->k[0] : (E *)0; };
  if (E *na = narrow(a)) {
    unsigned lw = na->w;
    if (isc(b)) {
      bool fits = b->val <= maskw(lw);
      if (op == OP_EQ) return fits ? mk_cmp(OP_EQ, na, mkc(lw, b->val)) : mkc(1, 0);
      if (op == OP_ULT || op == OP_ULE) return fits ? mk_cmp(op, na, mkc(lw, b->val)) : mkc(1, 1);
      if (op == OP_SLT || op == OP_SLE) { if (sx(b->val, w) < 0) return mkc(1, 0); return fits ? mk_cmp(op == OP_SLT ? OP_ULT : OP_ULE, na, mkc(lw, b->val)) : mkc(1, 1); }
    } else if (E *nb = narrow(b)) {
      unsigned mw = std::max(na->w, nb->w);
      u8 o = op == OP_SLT ? OP_ULT : op == OP_SLE ? OP_ULE : op;
      return mk_cmp(o, mk_zext(na, mw), mk_zext(nb, mw));
    }
  }
  if (E *nb = narrow(b)) if (isc(a)) {
    unsigned lw = nb->w; bool fits = a->val <= maskw(lw);
    if (op == OP_ULT || op == OP_ULE) return fits ? mk_cmp(op, mkc(lw, a->val), nb) : mkc(1, 0);
    if (op == OP_SLT || op == OP_SLE) { if (sx(a->val, w) < 0) return mkc(1, 1); return fits ? mk_cmp(op == OP_SLT ? OP_ULT : OP_ULE, mkc(lw, a->val), nb) : mkc(1, 0); }
  }
  if (isc(b)) {
    if (a->op == OP_SEXT) {
      unsigned lw = a->k[0]->w; bool fits = (u64)(sx(b->val & maskw(lw), lw)) == (u64)sx(b->val, w);
      if (op == OP_EQ) return fits ? mk_cmp(OP_EQ, a->k[0], mkc(lw, b->val)) : mkc(1, 0);
      if ((op == OP_SLT || op == OP_SLE) && fits) return mk_cmp(op, a->k[0], mkc(lw, b->val));
    }
    if (op == OP_EQ && a->op == OP_ADD && isc(a->k[1])) return mk_cmp(OP_EQ, a->k[0], mkc(w, b->val - a->k[1]->val));
    if (op == OP_EQ && a->op == OP_CONCAT) {
      unsigned lw = a->k[1]->w;
      return mk_bin(OP_AND, mk_cmp(OP_EQ, a->k[0], mkc(a->k[0]->w, b->val >> lw)), mk_cmp(OP_EQ, a->k[1], mkc(lw, b->val)));
    }
    if (a->op == OP_ITE && (isc(a->k[1]) || isc(a->k[2]))) return mk_ite(a->k[0], mk_cmp(op, a->k[1], b), mk_cmp(op, a->k[2], b));
    if (op == OP_ULT && b->val == 0) return mkc(1, 0);
    if (op == OP_ULT && b->val == 1) return mk_cmp(OP_EQ, a, mkc(w, 0));
    if (op == OP_ULE && b->val == 0) return mk_cmp(OP_EQ, a, b);
    if (op == OP_ULE && b->val == maskw(w)) return mkc(1, 1);
  } else if (isc(a)) {
    if (b->op == OP_ITE && (isc(b->k[1]) || isc(b->k[2]))) return mk_ite(b->k[0], mk_cmp(op, a, b->k[1]), mk_cmp(op, a, b->k[2]));
    if (op == OP_ULE && a->val == 0) return mkc(1, 1);
    if (op == OP_ULT && a->val == maskw(w)) return mkc(1, 0);
    if (op == OP_ULT && a->val == 0) return mk_not(mk_cmp(OP_EQ, b, mkc(w, 0)));
  }
  return mkraw(op, 1, 0, a, b);
}

// ---------------------------------------------------------------- path state
static u8 model[NB];
static int nvars = 0;
static M256 dom[NB];
struct Con { E *e; };
static std::vector<E *> *multi;        // multi-byte constraints
static std::vector<E *> *singles;      // NB lists of single-byte constraints
static Sup inMulti;
static bool dead = false;
static int path_conc = 0;
static u64 rt_events = 0;
struct Obs { E *e; u64 v; };
static std::vector<Obs> *obs;
static u64 my_path = 0;
static int has_slot = 1;

static void path_exit(int kind, const char *why = 0) __attribute__((noreturn));
static M256 *mask_of(E *e, int i) {   // e has single-byte support {i}, width 1
  if (e->mask) return e->mask;
  M256 *m = (M256 *)bump(sizeof(M256)); memset(m, 0, sizeof *m);
  u8 tmp[NB]; memcpy(tmp, model, NB);
  for (int v = 0; v < 256; ++v) { tmp[i] = v; if (evalm(e, tmp)) m->set(v); }
  ++g_epoch;
  e->mask = m; return m;
}
enum { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
static unsigned g_rlimit = 40000000;
static void write_all(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return; c += k; n -= k; } }
static bool read_all(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; } return true; }
static u32 g_wseq = 0;
static u32 ser(E *e, std::vector<WNode> &ns, std::vector<u64> &tab) {
  if (e->wseq == g_wseq) return e->wi;
  WNode n; memset(&n, 0, sizeof n); n.op = e->op; n.w = e->w; n.nk = e->nk; n.val = e->val;
  for (int i = 0; i < e->nk; ++i) n.k[i] = ser(e->k[i], ns, tab);
  if (e->op == OP_TABLE) { Table *t = (Table *)e->val; n.val = tab.size(); tab.push_back(t->n); tab.insert(tab.end(), t->key, t->key + t->n); tab.insert(tab.end(), t->val, t->val + t->n); }
  e->wseq = g_wseq; e->wi = ns.size(); ns.push_back(n); return e->wi;
}
static int srv_fd[16];
static int my_srv = 0;
// decide the conjunction of `use` (all over the bytes in s); cached across paths
static int query(std::vector<E *> &use, const Sup &s, bool fp, u8 *m) {
  std::sort(use.begin(), use.end(), [](E *a, E *b) { return a->sh < b->sh; });
  use.erase(std::unique(use.begin(), use.end()), use.end());
  u64 h1 = 0x1234567, h2 = 0x9876543;
  for (E *x : use) { h1 = (h1 ^ x->sh) * 0x9E3779B97F4A7C15ull; h1 ^= h1 >> 31; h2 = (h2 + x->sh) * 0xD6E8FEB86659FD93ull; h2 ^= h2 >> 29; }
  if (!h1) h1 = 1;
  int sc = s.count(); bool cacheable = sc <= 40;
  CacheEnt *slot = 0;
  if (cacheable) for (int i = 0; i < 8; ++i) {
    CacheEnt &c = cache[(h1 + i) & (CACHE_N - 1)];
    int st = c.state.load();
    if (st == 2 && c.h1 == h1 && c.h2 == h2) {
      ctl->cache_hits++;
      if (c.res == R_SAT) { memcpy(m, model, NB); int k = 0; for (int i = 0; i < nvars; ++i) if (s.test(i)) m[i] = c.m[k++]; }
      return c.res; }
    if (st == 0) { slot = &c; break; }
  }
  rt_events++;
  std::vector<WNode> ns; std::vector<u64> tab; std::vector<u32> roots;
  ++g_wseq;
  for (E *x : use) roots.push_back(ser(x, ns, tab));
  WReq rq; rq.magic = 0x51424d53; rq.nodes = ns.size(); rq.roots = roots.size(); rq.tabs = tab.size(); rq.seq = ++ctl->seq; rq.fp = fp; rq.rlimit = g_rlimit;
  // acquire a solver process
  int k = my_srv;
  for (int spin = 0;; ++spin) { int z = 0; if (ctl->srv_busy[k].compare_exchange_strong(z, 1)) break; k = (k + 1) % nslots; if (spin > 2 * nslots) usleep(50); }
  my_srv = k;
  std::string buf; buf.append((char *)&rq, sizeof rq); buf.append((char *)ns.data(), ns.size() * sizeof(WNode)); buf.append((char *)roots.data(), roots.size() * 4); buf.append((char *)tab.data(), tab.size() * 8);
  write_all(srv_fd[k], buf.data(), buf.size());
  WResp rs; bool ok;
  do { ok = read_all(srv_fd[k], &rs, sizeof rs); } while (ok && rs.seq != rq.seq);
  ctl->srv_busy[k] = 0;
  if (!ok) { named(ctl->reasons, MAXREASON, "solver process died")->n++; return R_UNKNOWN; }
  if (rs.result == R_SAT) { memcpy(m, model, NB); for (int i = 0; i < nvars; ++i) if (s.test(i)) m[i] = rs.model[i]; }
  if (slot && rs.result != R_UNKNOWN) { int z = 0; if (slot->state.compare_exchange_strong(z, 1)) { slot->h1 = h1; slot->h2 = h2; slot->res = rs.result; int q = 0; if (rs.result == R_SAT) for (int i = 0; i < nvars; ++i) if (s.test(i)) slot->m[q++] = rs.model[i]; slot->state = 2; } }
  return rs.result;
}
// is PC && e satisfiable? on SAT fills m with a full model
static int solve(E *e, u8 *m) {
  if (isc(e)) { if (e->val) { memcpy(m, model, NB); return R_SAT; } return R_UNSAT; }
  RT g;
  double t0 = now();
  Sup s = e->sup;
  std::vector<E *> use; std::vector<char> taken(multi->size(), 0);
  for (bool ch = true; ch;) { ch = false;
    for (size_t i = 0; i < multi->size(); ++i) if (!taken[i] && (*multi)[i]->sup.hits(s)) { taken[i] = 1; use.push_back((*multi)[i]); s = s | (*multi)[i]->sup; ch = true; } }
  bool fp = e->fp; for (E *x : use) fp |= x->fp;
  for (int i = 0; i < nvars; ++i) if (s.test(i)) for (E *x : singles[i]) use.push_back(x);
  use.push_back(e);
  if (fp && s.count() <= 4) {          // floating point over a few bytes at most: decide by exhausting their domains
    int v[4], n = 0; std::vector<u8> d[4]; u64 product = 1;
    for (int i = s.first(); i < nvars && n < 4; ++i) if (s.test(i)) { v[n] = i; for (int x = 0; x < 256; ++x) if (dom[i].get(x)) d[n].push_back(x); product *= d[n].size(); ++n; }
    if (product <= 70000) {
      u8 tmp[NB]; memcpy(tmp, model, NB); int r = R_UNSAT;
      for (u64 c = 0; c < product && r == R_UNSAT; ++c) {
        u64 q = c; for (int i = 0; i < n; ++i) { tmp[v[i]] = d[i][q % d[i].size()]; q /= d[i].size(); }
        bool ok = true; ++g_epoch; for (size_t k = use.size(); ok && k-- > 0;) ok = eval(use[k], tmp);
        if (ok) { memcpy(m, tmp, NB); r = R_SAT; } }
      ++g_epoch;
      ctl->queries++; ctl->solver_us += (u64)((now() - t0) * 1e6); (r == R_SAT ? ctl->sat : ctl->unsat)++;
      return r; } }
  int res = query(use, s, fp, m);
  if (res == R_SAT) {
    // the model must satisfy what the engine believes (soundness self-check)
    ++g_epoch;
    for (E *x : use) if (!eval(x, m)) res = R_UNKNOWN;
    ++g_epoch;
    if (res == R_UNKNOWN) named(ctl->reasons, MAXREASON, "solver model disagrees with evaluator")->n++;
  }
  u64 us = (u64)((now() - t0) * 1e6);
  ctl->queries++; ctl->solver_us += us; u64 mx = ctl->max_query_us; while (us > mx && !ctl->max_query_us.compare_exchange_weak(mx, us)) {}
  (res == R_SAT ? ctl->sat : res == R_UNSAT ? ctl->unsat : ctl->unknown)++;
  return res;
}
// feasibility for branching: exact byte-domain reasoning when the condition only involves
// one byte that is not tied to others, Z3 otherwise
static int z3all = 1;
static int feasible(E *e, u8 *m) {
  if (isc(e)) { memcpy(m, model, NB); return e->val ? R_SAT : R_UNSAT; }
  if (e->sup.count() == 1) {
    int i = e->sup.first(); M256 *k = mask_of(e, i); M256 x; for (int q = 0; q < 4; ++q) x.b[q] = k->b[q] & dom[i].b[q];
    int v = x.first();
    if (v < 0) {                       // the byte domain says no: have the solver confirm it
      if (!z3all || e->fp) return R_UNSAT;
      int r = solve(e, m);
      if (r == R_SAT) named(ctl->reasons, MAXREASON, "ENGINE: byte domain and solver disagree")->n++;
      return r == R_UNKNOWN ? R_UNSAT : r; }
    if (!inMulti.test(i)) { memcpy(m, model, NB); m[i] = (u8)v; return R_SAT; }
  }
  return solve(e, m);
}
static void add(E *e) {       // model must already satisfy e
  RT g;
  if (isc(e)) return;
  if (e->op == OP_AND && e->w == 1) { add(e->k[0]); add(e->k[1]); return; }
  if (e->sup.count() == 1) { int i = e->sup.first(); M256 *k = mask_of(e, i); M256 o = dom[i]; for (int q = 0; q < 4; ++q) dom[i].b[q] &= k->b[q]; if (memcmp(&o, &dom[i], sizeof o)) singles[i].push_back(e); return; }
  for (E *x : *multi) if (x == e) return;
  multi->push_back(e); inMulti = inMulti | e->sup;
}

// ---------------------------------------------------------------- violations and path end
static void record_violation(const char *id, const u8 *m, const char *detail) {
  NamedCount *nc = named(ctl->ids, MAXIDS, id);
  u64 k = nc->m++;
  bool known = false; { RT g; std::string l = std::string(",") + (getenv("SYMX_KNOWN") ? getenv("SYMX_KNOWN") : "") + ","; known = l.find(std::string(",") + id + ",") != std::string::npos; }
  if ((int)k >= maxPerId) { if (k > 200 && !known) ctl->stop = 1; return; }
  int v = known ? 100 + ctl->nknown++ : ctl->nviol++;
  char fn[512]; snprintf(fn, sizeof fn, "%s/viol-%d.bin", outdir.c_str(), v);
  int fd = open(fn, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { write_all(fd, m, nvars); close(fd); }
  snprintf(fn, sizeof fn, "%s/viol-%d.txt", outdir.c_str(), v);
  fd = open(fn, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) { char b[600]; int n = snprintf(b, sizeof b, "%s\n%s\n", id, detail ? detail : ""); write_all(fd, b, n); close(fd); }
  if (!known && v + 1 >= maxviol) ctl->stop = 1;
}
static bool model_ok() {
  ++g_epoch; bool ok = true;
  for (E *x : *multi) if (!eval(x, model)) ok = false;
  for (int i = 0; i < nvars; ++i) if (!dom[i].get(model[i])) ok = false;
  if (!ok) { named(ctl->reasons, MAXREASON, "ENGINE: model violates path condition")->n++; if (getenv("SYMX_DBG")) { for (E *x : *multi) if (!eval(x, model)) fprintf(stderr, "multi op %d\n", x->op); for (int i = 0; i < nvars; ++i) if (!dom[i].get(model[i])) fprintf(stderr, "dom %d val %d n %d\n", i, model[i], dom[i].count()); } }
  return ok;
}
static void dump_sample() {
  u64 k = ctl->nsample.load();
  bool take = my_path < (u64)maxsamples || (my_path % 97 == 0 && k < (u64)maxsamples * 4);
  if (!take) return;
  k = ctl->nsample++; if (k >= MAXSAMPLE) return;
  u64 h = 1469598103934665603ull;
  ++g_epoch;
  for (auto &o : *obs) { u64 v = o.e ? eval(o.e, model) : o.v; for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
  char fn[512]; snprintf(fn, sizeof fn, "%s/samples/%llu", outdir.c_str(), (unsigned long long)k);
  int fd = open(fn, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) return;
  write_all(fd, &h, 8); write_all(fd, model, nvars); close(fd);
}
static void path_exit(int kind, const char *why) {
  ++in_rt;
  model_ok();
  if (kind == 0) { dump_sample(); }
  else if (kind == 1) { ctl->incomplete++; named(ctl->reasons, MAXREASON, why ? why : "?")->n++; }
  else if (kind == 2) ctl->pruned++;
  ctl->exprs += g_id;
  ctl->finished++;
  if (has_slot) ctl->slots++;
  _exit(0);
}
static void crash(const char *what) {
  ++in_rt;
  record_violation(what, model, what);
  path_exit(3);
}
static void on_death() { 
  crash("crash:memory-error"); }
static void on_sig(int s) {
  if (s == SIGABRT) {
    const char *w = "crash:abort";
    std::type_info *t = abi::__cxa_current_exception_type();
    static char b[200];
    if (t) { snprintf(b, sizeof b, "crash:uncaught:%s", t->name()); w = b; }
    crash(w);
  }
  if (s == SIGFPE) crash("crash:SIGFPE");
  if (s == SIGSEGV || s == SIGBUS) crash("crash:SIGSEGV");
  if (s == SIGILL) crash("crash:SIGILL");
  crash("crash:signal");
}
static u64 last_events = 0; static int idle_ticks = 0, ticks = 0;
static int hang_ticks = 10;
static void on_prof(int) {
  ticks++;
  if (now() > t_deadline + 5 || ctl->stop) { if (!in_rt) path_exit(1, "deadline"); else if (now() > t_deadline + 30) { ctl->incomplete++; ctl->finished++; if (has_slot) ctl->slots++; _exit(0);} }
  if (rt_events == last_events && !in_rt) { if (++idle_ticks >= hang_ticks) crash("hang"); }
  else if (!in_rt || rt_events != last_events) { idle_ticks = 0; last_events = rt_events; }
}
static void start_timer() { itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, 0); }

static u64 rnd() { rng_seed ^= rng_seed << 13; rng_seed ^= rng_seed >> 7; rng_seed ^= rng_seed << 17; return rng_seed; }

static void profile(u64 pc) {
  u64 h = pc * 0x9E3779B97F4A7C15ull >> 50;
  for (int i = 0; i < 64; ++i) { auto &p = ctl->prof[(h + i) & (MAXPROF - 1)]; u64 z = 0; if (p.pc == pc || (p.pc == 0 && (p.pc.compare_exchange_strong(z, pc) || p.pc == pc))) { p.n++; return; } }
}
static void check_stop() { if (ctl->stop) path_exit(1, "stopped after violations"); if (now() > t_deadline) path_exit(1, "time budget"); }

static int depth_forks = 0;
// branch on e: returns the side this process continues with
static bool do_branch(E *e, void *pc) {
  if (isc(e)) return e->val;
  ctl->branches++;
  check_stop();
  bool mv = evalm(e, model) & 1;
  E *mine = mv ? e : mk_not(e), *other = mv ? mk_not(e) : e;
  u8 om[NB];
  int r = feasible(other, om);
  if (r == R_UNKNOWN) { ctl->incomplete++; named(ctl->reasons, MAXREASON, "solver unknown at branch")->n++; add(mine); return mv; }
  if (r == R_UNSAT) return mv;
  // two feasible sides
  ctl->forks++; rt_events++;
  if (prof_on) profile((u64)pc);
  u64 pid = ++ctl->pathid;
  ctl->started++;
  int s = ctl->slots.load(); bool got = false;
  while (s > 0) if (ctl->slots.compare_exchange_weak(s, s - 1)) { got = true; break; }
  bool flip = rnd() & 1;      // which side the child takes
  bool childOther = !flip;
  pid_t p;
  for (int tries = 0; (p = (pid_t)syscall(SYS_clone, SIGCHLD, 0, 0, 0, 0)) < 0 && tries < 200; ++tries) usleep(20000);
  if (p < 0) { ctl->finished++; ctl->incomplete++; named(ctl->reasons, MAXREASON, "fork failed")->n++; if (got) ctl->slots++; add(mine); return mv; }
  bool child = p == 0;
  if (child) { my_path = pid; has_slot = got; depth_forks++; start_timer(); ticks = idle_ticks = 0; rng_seed ^= pid * 0x9E3779B97F4A7C15ull; if (!rng_seed) rng_seed = 1; }
  else if (!got) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} check_stop(); }
  bool takeOther = child ? childOther : !childOther;
  if (takeOther) { memcpy(model, om, NB); add(other); return !mv; }
  add(mine); return mv;
}

// ---------------------------------------------------------------- shadow memory
struct Page { u64 no; E *b[4096]; int n; };
static Page *ptab[1 << 14];
static Page *findPage(u64 no, bool mk) {
  u32 h = (u32)(no * 0x9E3779B97F4A7C15ull >> 50);
  for (u32 i = 0;; ++i) { Page *&p = ptab[(h + i) & ((1 << 14) - 1)]; if (!p) { if (!mk) return 0; p = (Page *)bump(sizeof(Page)); memset(p, 0, sizeof(Page)); p->no = no; 
      sx_pages[no & 0xffff] = 1; sx_pages[(no - 1) & 0xffff] = 1; return p; } if (p->no == no) return p; }
}
static E *getb(u64 a) { Page *p = findPage(a >> 12, false); return p ? p->b[a & 4095] : 0; }
static void setb(u64 a, E *e) {
  if (e && isc(e)) { *(u8 *)a = (u8)e->val; e = 0; }
  Page *p = findPage(a >> 12, e != 0); if (p) p->b[a & 4095] = e; }
static bool anyFlag(u64 a, u64 n) { for (u64 p = a >> 12; p <= (a + n - 1) >> 12; ++p) if (sx_pages[p & 0xffff]) return true; return false; }
static E *byteAt(u64 a) { E *e = getb(a); return e ? e : mkc(8, *(u8 *)a); }
static E *E_(u64 s) { return (E *)s; }
static E *val(u64 s, u64 v, unsigned w) { return s ? E_(s) : mkc(w, v); }
static u64 out(E *e);

extern "C" {
u64 sx_load(void *p, u32 n) {
  u64 a = (u64)p; bool any = false;
  for (u32 i = 0; i < n; ++i) if (getb(a + i)) { any = true; break; }
  if (!any) return 0;
  E *r = byteAt(a);
  for (u32 i = 1; i < n; ++i) r = mk_concat(byteAt(a + i), r);
  return (u64)r;
}
void sx_store(void *p, u32 n, u64 s) {
  u64 a = (u64)p;
  if (!s) { for (u32 i = 0; i < n; ++i) setb(a + i, 0); return; }
  // constants stored bytes are written after the native store would overwrite them, so keep them symbolic-as-const
  for (u32 i = 0; i < n; ++i) { E *x = mk_extract(E_(s), 8 * i, 8); Page *pg = findPage((a + i) >> 12, true); pg->b[(a + i) & 4095] = x; }
}
void sx_clear(void *p, u64 n) { u64 a = (u64)p; if (!n || !anyFlag(a, n)) return;
  for (u64 q = a; q < a + n;) { Page *pg = findPage(q >> 12, false); u64 e = std::min<u64>(a + n, (q | 4095) + 1); if (pg) memset(&pg->b[q & 4095], 0, (e - q) * sizeof(E *)); q = e; } }
u64 sx_conc(u64 s);
void sx_concmem(void *p, u64 n) { u64 a = (u64)p; if (!n || !anyFlag(a, n)) return;
  // concretize in 8-byte groups for fewer forks
  for (u64 i = 0; i < n; ++i) if (getb(a + i)) { u64 v = sx_conc((u64)getb(a + i)); *(u8 *)(a + i) = (u8)v; setb(a + i, 0); } }
void sx_memcpy(void *d, void *s, u64 n) {
  if (!n) return; u64 a = (u64)d, b = (u64)s;
  bool fs = anyFlag(b, n), fd = anyFlag(a, n);
  if (!fs && !fd) return;
  std::vector<E *> t; { RT g; t.resize(n); }
  for (u64 i = 0; i < n; ++i) t[i] = fs ? getb(b + i) : 0;
  for (u64 i = 0; i < n; ++i) { if (t[i]) findPage((a + i) >> 12, true)->b[(a + i) & 4095] = t[i]; else if (Page *p = findPage((a + i) >> 12, false)) p->b[(a + i) & 4095] = 0; }
  { RT g; std::vector<E *>().swap(t); }
}
void sx_memset(void *d, u64 s, u64 n) { if (!s) { sx_clear(d, n); return; } for (u64 i = 0; i < n; ++i) sx_store((char *)d + i, 1, (u64)mk_extract(E_(s), 0, 8)); }
static int single_mode = 0;
static u8 single_in[NB]; static int single_n = 0;
u8 sx_branch(u64 s, u32 nat) {
  if (single_mode) { u64 v = evalm(E_(s), model) & 1; if (v != (nat & 1)) { fprintf(stderr, "MISMATCH at %p expr %d native %d op %d\n", __builtin_return_address(0), (int)v, nat, E_(s)->op); single_mode = 0; if (getenv("SYMX_GDB")) __builtin_trap(); } }
  return do_branch(E_(s), __builtin_return_address(0)); }
u64 sx_conc(u64 s) {
  E *e = E_(s);
  if (isc(e)) return e->val;
  ctl->concs++;
  for (;;) { u64 v = evalm(e, model); if (do_branch(mk_cmp(OP_EQ, e, mkc(e->w, v)), __builtin_return_address(0))) return v; }
}
}
static void **fn_tab; static u64 fn_n; static u64 *fn_hash; static u64 fn_hm;
extern "C" {
void sx_register(void **t, u64 n) {
  fn_tab = t; fn_n = n; fn_hm = 1; while (fn_hm < n * 3) fn_hm <<= 1;
  fn_hash = (u64 *)mmap(0, fn_hm * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (u64 i = 0; i < n; ++i) { u64 h = ((u64)t[i] * 0x9E3779B97F4A7C15ull >> 20) & (fn_hm - 1); while (fn_hash[h]) h = (h + 1) & (fn_hm - 1); fn_hash[h] = (u64)t[i]; }
}
static bool is_instr(void *f) { u64 h = ((u64)f * 0x9E3779B97F4A7C15ull >> 20) & (fn_hm - 1); while (fn_hash[h]) { if (fn_hash[h] == (u64)f) return true; h = (h + 1) & (fn_hm - 1); } return false; }
static void *icall_seen[256];
void sx_icall(void *f) {   // indirect call: note targets whose bodies the engine does not see
  if (is_instr(f)) return;
  u64 h = (u64)f * 0x9E3779B97F4A7C15ull >> 56;
  if (icall_seen[h] == f) return; icall_seen[h] = f;
  RT g; Dl_info di; const char *n = dladdr(f, &di) && di.dli_sname ? di.dli_sname : "?";
  named(ctl->icalls, 256, n)->n++;
}
u64 sx_conc_arg(void *f, u64 s, u64 v) { if (is_instr(f)) return v; return sx_conc(s); }
void sx_unsup(u32 k) { char b[64]; snprintf(b, sizeof b, "unsupported operation %u", k); path_exit(1, b); }

u64 sx_bin(u32 op, u32 w, u64 sa, u64 a, u64 sb, u64 b) {
  E *x = val(sa, a, w), *y = val(sb, b, w), *r = 0;
  switch (op) {
  case OP_UMIN: r = mk_ite(mk_cmp(OP_ULT, x, y), x, y); break; case OP_UMAX: r = mk_ite(mk_cmp(OP_ULT, x, y), y, x); break;
  case OP_SMIN: r = mk_ite(mk_cmp(OP_SLT, x, y), x, y); break; case OP_SMAX: r = mk_ite(mk_cmp(OP_SLT, x, y), y, x); break;
  case OP_USUBSAT: r = mk_ite(mk_cmp(OP_ULT, x, y), mkc(w, 0), mk_bin(OP_SUB, x, y)); break;
  case OP_UADDSAT: { E *s = mk_bin(OP_ADD, x, y); r = mk_ite(mk_cmp(OP_ULT, s, x), mkc(w, ~0ull), s); break; }
  case OP_UADDO: r = mk_cmp(OP_ULT, mk_bin(OP_ADD, x, y), x); break;
  case OP_USUBO: r = mk_cmp(OP_ULT, x, y); break;
  case OP_UMULO: case OP_SMULO:
    if (w <= 32) { bool sg = op == OP_SMULO; E *p = mk_bin(OP_MUL, sg ? mk_sext(x, 2 * w) : mk_zext(x, 2 * w), sg ? mk_sext(y, 2 * w) : mk_zext(y, 2 * w)); E *lo = mk_extract(p, 0, w);
      r = mk_not(mk_cmp(OP_EQ, p, sg ? mk_sext(lo, 2 * w) : mk_zext(lo, 2 * w))); }
    else if (op == OP_UMULO) { // y != 0 && (x*y)/y != x
      E *p = mk_bin(OP_MUL, x, y); E *nz = mk_not(mk_cmp(OP_EQ, y, mkc(w, 0)));
      r = isc(y) ? (y->val ? mk_cmp(OP_ULT, mkc(w, ~0ull / y->val), x) : mkc(1, 0)) : mk_bin(OP_AND, nz, mk_not(mk_cmp(OP_EQ, mk_bin(OP_UDIV, p, y), x))); }
    else { if (isc(y) && sx(y->val, w) > 0) { i64 k = sx(y->val, w); i64 hi = INT64_MAX / k, lo = INT64_MIN / k; r = mk_bin(OP_OR, mk_cmp(OP_SLT, mkc(w, hi), x), mk_cmp(OP_SLT, x, mkc(w, lo))); } else sx_unsup(1000 + op); }
    break;
  case OP_SADDO: { E *s = mk_bin(OP_ADD, x, y); E *t = mk_bin(OP_AND, mk_bin(OP_XOR, s, x), mk_bin(OP_XOR, s, y)); r = mk_cmp(OP_SLT, t, mkc(w, 0)); break; }
  case OP_SSUBO: { E *s = mk_bin(OP_SUB, x, y); E *t = mk_bin(OP_AND, mk_bin(OP_XOR, x, y), mk_bin(OP_XOR, s, x)); r = mk_cmp(OP_SLT, t, mkc(w, 0)); break; }
  case OP_COPYSIGN: r = mk_concat(mk_extract(y, w - 1, 1), mk_extract(x, 0, w - 1)); break;
  case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV:
    if (isc(x) && isc(y)) r = mkc(w, apply(op, w, w, 0, x->val, y->val, 0)); else r = mkraw(op, w, 0, x, y); break;
  default: r = mk_bin(op, x, y);
  }
  return out(r);
}
}
static u64 out(E *e) { return (u64)e; }
extern "C" {
u64 sx_cmp(u32 pred, u32 w, u64 sa, u64 a, u64 sb, u64 b) {
  E *x = val(sa, a, w), *y = val(sb, b, w), *r;
  switch (pred) { // llvm CmpInst predicates
  case 32: r = mk_cmp(OP_EQ, x, y); break; case 33: r = mk_not(mk_cmp(OP_EQ, x, y)); break;
  case 34: r = mk_cmp(OP_ULT, y, x); break; case 35: r = mk_cmp(OP_ULE, y, x); break; case 36: r = mk_cmp(OP_ULT, x, y); break; case 37: r = mk_cmp(OP_ULE, x, y); break;
  case 38: r = mk_cmp(OP_SLT, y, x); break; case 39: r = mk_cmp(OP_SLE, y, x); break; case 40: r = mk_cmp(OP_SLT, x, y); break; default: r = mk_cmp(OP_SLE, x, y); break;
  }
  return out(r);
}
u64 sx_fcmp(u32 pred, u32 w, u64 sa, u64 a, u64 sb, u64 b) {
  E *x = val(sa, a, w), *y = val(sb, b, w);
  auto fc = [&](u8 op, E *p, E *q) { return isc(p) && isc(q) ? mkc(1, apply(op, w, 1, 0, p->val, q->val, 0)) : mkraw(op, 1, 0, p, q); };
  E *r, *uno = fc(OP_FUNO, x, y);
  switch (pred & 7) { case 0: r = mkc(1, 0); break; case 1: r = fc(OP_FEQ, x, y); break; case 2: r = fc(OP_FLT, y, x); break; case 3: r = fc(OP_FLE, y, x); break;
    case 4: r = fc(OP_FLT, x, y); break; case 5: r = fc(OP_FLE, x, y); break;
    case 6: r = mk_bin(OP_AND, mk_not(uno), mk_not(fc(OP_FEQ, x, y))); break; default: r = mk_not(uno); break; }
  if (pred & 8) r = pred == 15 ? mkc(1, 1) : (pred & 7) == 0 ? uno : mk_bin(OP_OR, r, uno);
  return out(r);
}
u64 sx_cast(u32 op, u32 w, u32 ow, u64 s) {
  E *x = E_(s), *r = 0;
  switch (op) {
  case C_ZEXT: r = mk_zext(x, ow); break; case C_SEXT: r = mk_sext(x, ow); break; case C_TRUNC: r = mk_extract(x, 0, ow); break; case C_BITCAST: r = x; break;
  case C_FNEG: r = mk_bin(OP_XOR, x, mkc(w, 1ull << (w - 1))); break;
  case C_FABS: r = mk_bin(OP_AND, x, mkc(w, maskw(w - 1))); break;
  case C_BSWAP: { r = mk_extract(x, 0, 8); for (u32 i = 8; i < w; i += 8) r = mk_concat(r, mk_extract(x, i, 8)); break; }
  case C_ABS: r = mk_ite(mk_cmp(OP_SLT, x, mkc(w, 0)), mk_bin(OP_SUB, mkc(w, 0), x), x); break;
  case C_CTPOP: { r = mkc(w, 0); for (u32 i = 0; i < w; ++i) r = mk_bin(OP_ADD, r, mk_zext(mk_extract(x, i, 1), w)); break; }
  case C_ISFP: { // mask in ow: 1 snan 2 qnan 4 ninf 8 nnorm 0x10 nsub 0x20 nzero 0x40 pzero 0x80 psub 0x100 pnorm 0x200 pinf
    u32 m = ow; unsigned eb = w == 32 ? 8 : 11, mb = w == 32 ? 23 : 52;
    E *ex = mk_extract(x, mb, eb), *mn = mk_extract(x, 0, mb), *sg = mk_extract(x, w - 1, 1);
    E *e1 = mk_cmp(OP_EQ, ex, mkc(eb, ~0ull)), *e0 = mk_cmp(OP_EQ, ex, mkc(eb, 0)), *m0 = mk_cmp(OP_EQ, mn, mkc(mb, 0)), *neg = mk_cmp(OP_EQ, sg, mkc(1, 1));
    r = mkc(1, 0); auto orr = [&](E *c) { r = mk_bin(OP_OR, r, c); }; E *pos = mk_not(neg);
    E *q = mk_cmp(OP_EQ, mk_extract(x, mb - 1, 1), mkc(1, 1)); E *nan = mk_bin(OP_AND, e1, mk_not(m0));
    if (m & 1) orr(mk_bin(OP_AND, nan, mk_not(q))); if (m & 2) orr(mk_bin(OP_AND, nan, q));
    E *inf = mk_bin(OP_AND, e1, m0), *zero = mk_bin(OP_AND, e0, m0), *sub = mk_bin(OP_AND, e0, mk_not(m0)), *nrm = mk_bin(OP_AND, mk_not(e0), mk_not(e1));
    if (m & 4) orr(mk_bin(OP_AND, inf, neg)); if (m & 8) orr(mk_bin(OP_AND, nrm, neg)); if (m & 16) orr(mk_bin(OP_AND, sub, neg)); if (m & 32) orr(mk_bin(OP_AND, zero, neg));
    if (m & 64) orr(mk_bin(OP_AND, zero, pos)); if (m & 128) orr(mk_bin(OP_AND, sub, pos)); if (m & 256) orr(mk_bin(OP_AND, nrm, pos)); if (m & 512) orr(mk_bin(OP_AND, inf, pos));
    break; }
  case C_FLOOR: case C_CEIL: case C_TRUNCF: case C_ROUND: case C_RINT: case C_SQRT:
    r = isc(x) ? mkc(w, apply(OP_FP1, w, w, op, x->val, 0, 0)) : mkraw(OP_FP1, w, op, x); break;
  default: r = isc(x) ? mkc(ow, apply(OP_FPCONV, w, ow, op, x->val, 0, 0)) : mkraw(OP_FPCONV, ow, op, x); break;
  }
  return out(r);
}
u64 sx_select(u32 w, u64 sc, u64 sa, u64 a, u64 sb, u64 b) { return out(mk_ite(E_(sc), val(sa, a, w), val(sb, b, w))); }
void sx_divchk(u32 op, u32 w, u64 sa, u64 a, u64 sb, u64 b) {
  E *y = val(sb, b, w), *x = val(sa, a, w);
  if (do_branch(mk_cmp(OP_EQ, y, mkc(w, 0)), __builtin_return_address(0))) crash("crash:SIGFPE");
  if ((op == OP_SDIV || op == OP_SREM) && w >= 32) {
    E *o = mk_bin(OP_AND, mk_cmp(OP_EQ, y, mkc(w, ~0ull)), mk_cmp(OP_EQ, x, mkc(w, 1ull << (w - 1))));
    if (do_branch(o, __builtin_return_address(0))) crash("crash:SIGFPE");
  }
}
static bool poisoned(void *p, u64 n) { return __asan_region_is_poisoned && __asan_region_is_poisoned(p, n); }
static bool feas_values(E *e, std::vector<u64> &v, size_t lim) {
  // all feasible values of e under the path condition
  v.clear();
  if (e->sup.count() == 1 && !inMulti.test(e->sup.first())) {
    int i = e->sup.first(); u8 tmp[NB]; memcpy(tmp, model, NB);
    for (int x = 0; x < 256; ++x) if (dom[i].get(x)) { tmp[i] = x; v.push_back(evalm(e, tmp)); }
    ++g_epoch; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v.size() <= lim;
  }
  E *c = mkc(1, 1); u8 m[NB];
  v.push_back(evalm(e, model)); c = mk_not(mk_cmp(OP_EQ, e, mkc(e->w, v[0])));
  for (;;) { int r = feasible(c, m); if (r == R_UNSAT) break; if (r == R_UNKNOWN) return false; u64 x = evalm(e, m); v.push_back(x); if (v.size() > lim) return false; c = mk_bin(OP_AND, c, mk_not(mk_cmp(OP_EQ, e, mkc(e->w, x)))); }
  ++g_epoch; std::sort(v.begin(), v.end()); return true;
}
// load through base + sext(idx)*stride + off with symbolic idx
u64 sx_tbl_load(void *base, u64 s, u64 iw, u64 stride, u64 off, u32 n, void **pp, u32 w) {
  E *ix = E_(s); 
  auto addr = [&](u64 v) { return (char *)base + sx(v, iw) * (i64)stride + (i64)off; };
  std::vector<u64> *v; { RT g; v = new std::vector<u64>(); v->reserve(600); }
  bool ok = feas_values(ix, *v, 512);
  if (ok) {
    bool shadowed = false;
    for (u64 x : *v) { if (poisoned(addr(x), n)) { 
        if (do_branch(mk_cmp(OP_EQ, ix, mkc(ix->w, x)), __builtin_return_address(0))) crash("crash:memory-error"); } 
      else if (anyFlag((u64)addr(x), n)) for (u32 q = 0; q < n; ++q) if (getb((u64)addr(x) + q)) shadowed = true; }
    if (!shadowed) {
      Table *t = (Table *)bump(sizeof(Table)); t->n = 0; t->key = (u64 *)bump(v->size() * 8); t->val = (u64 *)bump(v->size() * 8);
      char *safe = 0; bool same = true;
      for (u64 x : *v) { if (poisoned(addr(x), n)) continue; u64 r = 0; memcpy(&r, addr(x), n); r &= maskw(w); t->key[t->n] = x; t->val[t->n] = r; if (t->n && t->val[0] != r) same = false; t->n++; safe = addr(x); }
      if (t->n) { *pp = safe; { RT g; delete v; } if (same) return (u64)mkc(w, t->val[0]); return (u64)mkraw(OP_TABLE, w, (u64)t, ix); }
    }
    if (v->size() <= 64) { // build an ite chain over (possibly symbolic) cells
      E *r = 0; char *safe = 0;
      for (u64 x : *v) { if (poisoned(addr(x), n)) continue; safe = addr(x); u64 ls = sx_load(addr(x), n); u64 raw = 0; memcpy(&raw, addr(x), n); E *cell = ls ? mk_extract(E_(ls), 0, w) : mkc(w, raw);
        r = r ? mk_ite(mk_cmp(OP_EQ, ix, mkc(ix->w, x)), cell, r) : cell; }
      if (r) { *pp = safe; { RT g; delete v; } return (u64)r; }
    }
  }
  { RT g; delete v; }
  u64 x = sx_conc(s); *pp = addr(x);
  if (poisoned(*pp, n)) return 0; // native load reports it
  u64 ls = anyFlag((u64)*pp, n) ? sx_load(*pp, n) : 0;
  return ls && w != n * 8 ? (u64)mk_extract(E_(ls), 0, w) : ls;
}

u64 sx_switch(u64 s, u32 w, u64 *vals, u64 *succ, u32 n) {
  E *e = E_(s);
  if (isc(e)) return e->val;
  u64 mx = 0; for (u32 i = 0; i < n; ++i) mx = std::max(mx, succ[i]);
  for (u64 g = 1; g <= mx; ++g) {
    E *c = mkc(1, 0); u64 rep = 0; bool any = false;
    u64 *t = (u64 *)bump(n * 8); u32 k = 0;
    for (u32 i = 0; i < n; ++i) if (succ[i] == g) t[k++] = vals[i] & maskw(w);
    std::sort(t, t + k);
    for (u32 i = 0; i < k;) { u32 j = i; while (j + 1 < k && t[j + 1] == t[j] + 1) ++j; if (!any) rep = t[i]; any = true;
      c = mk_bin(OP_OR, c, i == j ? mk_cmp(OP_EQ, e, mkc(w, t[i])) : mk_cmp(OP_ULE, mk_bin(OP_ADD, e, mkc(w, 0 - t[i])), mkc(w, t[j] - t[i]))); i = j + 1; }
    if (any && do_branch(c, __builtin_return_address(0))) return rep;
  }
  u64 v = evalm(e, model);   // default: any value with the default successor (the model satisfies the path condition)
  return v;
}

// ---------------------------------------------------------------- library models
#define SHRET(e) (sx_ret[0] = (u64)(e))
static u64 argS(int i) { return sx_args[i]; }
static u64 conc_sz(u64 v, int slot) { u64 s = sx_args[slot]; return s ? sx_conc(s) : v; }
static int cmp_bytes(const u8 *a, const u8 *b, u64 n, unsigned unit) {
  if (!n) return 0;
  bool any = false;
  if (anyFlag((u64)a, n) || anyFlag((u64)b, n)) for (u64 i = 0; i < n && !any; ++i) any = getb((u64)a + i) || getb((u64)b + i);
  if (!any || poisoned((void *)a, n) || poisoned((void *)b, n)) return unit == 1 ? memcmp(a, b, n) : wmemcmp((const wchar_t *)a, (const wchar_t *)b, n / 4);
  E *r = mkc(32, 0);
  for (i64 i = (i64)n - unit; i >= 0; i -= unit) {
    E *x = byteAt((u64)a + i), *y = byteAt((u64)b + i);
    if (unit == 1) r = mk_ite(mk_cmp(OP_EQ, x, y), r, mk_ite(mk_cmp(OP_ULT, x, y), mkc(32, ~0ull), mkc(32, 1)));
    else { for (unsigned q = 1; q < unit; ++q) { x = mk_concat(byteAt((u64)a + i + q), x); y = mk_concat(byteAt((u64)b + i + q), y); }
      r = mk_ite(mk_cmp(OP_EQ, x, y), r, mk_ite(mk_cmp(OP_SLT, x, y), mkc(32, ~0ull), mkc(32, 1))); }
  }
  if (isc(r)) return (int)r->val;
  SHRET(r); return single_mode ? (int)evalm(r, model) : 0;
}
int sx_m_memcmp(const void *a, const void *b, size_t n) { n = conc_sz(n, 0); SHRET(0); return cmp_bytes((const u8 *)a, (const u8 *)b, n, 1); }
int sx_m_bcmp(const void *a, const void *b, size_t n) { n = conc_sz(n, 0); SHRET(0);
  if (!n) return 0; bool any = false;
  if (anyFlag((u64)a, n) || anyFlag((u64)b, n)) for (u64 i = 0; i < n && !any; ++i) any = getb((u64)a + i) || getb((u64)b + i);
  if (!any || poisoned((void *)a, n) || poisoned((void *)b, n)) return memcmp(a, b, n);
  E *eq = mkc(1, 1); for (u64 i = 0; i < n; ++i) eq = mk_bin(OP_AND, eq, mk_cmp(OP_EQ, byteAt((u64)a + i), byteAt((u64)b + i)));
  if (isc(eq)) return !eq->val; SHRET(mk_zext(mk_not(eq), 32)); return single_mode ? !evalm(eq, model) : 0; }
int sx_m_wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { n = conc_sz(n, 0); SHRET(0); return cmp_bytes((const u8 *)a, (const u8 *)b, n * 4, 4); }
static E *cellAt(u64 a, unsigned u) { E *x = byteAt(a); for (unsigned q = 1; q < u; ++q) x = mk_concat(byteAt(a + q), x); return x; }
static u64 slen(u64 a, unsigned u, u64 lim) {
  for (u64 i = 0; i < lim; ++i) { u64 p = a + i * u;
    if (poisoned((void *)p, u)) crash("crash:memory-error");
    E *c = cellAt(p, u);
    if (do_branch(mk_cmp(OP_EQ, c, mkc(8 * u, 0)), __builtin_return_address(0))) return i; }
  return lim; }
size_t sx_m_strlen(const char *s) { SHRET(0); if (!sx_pages[((u64)s >> 12) & 0xffff]) return strlen(s); return slen((u64)s, 1, ~0ull); }
size_t sx_m_wcslen(const wchar_t *s) { SHRET(0); if (!sx_pages[((u64)s >> 12) & 0xffff]) return wcslen(s); return slen((u64)s, 4, ~0ull); }
static void *find(u64 a, E *c, u64 n, unsigned u) {
  for (u64 i = 0; i < n; ++i) { u64 p = a + i * u; if (poisoned((void *)p, u)) crash("crash:memory-error");
    if (do_branch(mk_cmp(OP_EQ, cellAt(p, u), c), __builtin_return_address(0))) return (void *)p; }
  return 0; }
void *sx_m_memchr(const void *s, int c, size_t n) { u64 cs = argS(0); n = conc_sz(n, 1); SHRET(0); if (!n) return 0;
  if (!cs && !anyFlag((u64)s, n)) return (void *)memchr(s, c, n);
  return find((u64)s, mk_extract(val(cs, (u32)c, 32), 0, 8), n, 1); }
wchar_t *sx_m_wmemchr(const wchar_t *s, wchar_t c, size_t n) { u64 cs = argS(0); n = conc_sz(n, 1); SHRET(0); if (!n) return 0;
  if (!cs && !anyFlag((u64)s, n * 4)) return (wchar_t *)wmemchr(s, c, n);
  return (wchar_t *)find((u64)s, val(cs, (u32)c, 32), n, 4); }
char *sx_m_strchr(const char *s, int c) { u64 cs = argS(0); SHRET(0); u64 n = slen((u64)s, 1, ~0ull); return (char *)find((u64)s, mk_extract(val(cs, (u32)c, 32), 0, 8), n + 1, 1); }
char *sx_m_strrchr(const char *s, int c) { u64 cs = argS(0); SHRET(0); u64 n = slen((u64)s, 1, ~0ull); E *e = mk_extract(val(cs, (u32)c, 32), 0, 8);
  for (i64 i = n; i >= 0; --i) if (do_branch(mk_cmp(OP_EQ, cellAt((u64)s + i, 1), e), __builtin_return_address(0))) return (char *)s + i; return 0; }
int sx_m_strcmp(const char *a, const char *b) { SHRET(0); u64 n = slen((u64)a, 1, ~0ull); u64 m = slen((u64)b, 1, n); u64 k = std::min(n, m) + 1; return cmp_bytes((const u8 *)a, (const u8 *)b, k, 1); }
int sx_m_strncmp(const char *a, const char *b, size_t l) { l = conc_sz(l, 0); SHRET(0); u64 n = slen((u64)a, 1, l); u64 m = slen((u64)b, 1, n); u64 k = std::min<u64>(std::min(n, m) + 1, l); return cmp_bytes((const u8 *)a, (const u8 *)b, k, 1); }
// std::basic_string::find(char, pos): the position stays symbolic
static size_t sfind(void *str, E *c, size_t pos, unsigned u) {
  u64 ls = anyFlag((u64)str + 8, 8) ? sx_load((char *)str + 8, 8) : 0; u64 n = ls ? sx_conc(ls) : ((u64 *)str)[1]; u64 d = *(u64 *)str;
  if (pos >= n) return ~0ull;
  if (poisoned((void *)(d + pos * u), (n - pos) * u)) crash("crash:memory-error");
  if (!anyFlag(d, n * u) && u == 1 && !isc(c) && c->sup.count() <= 2) {
    Table *t = (Table *)bump(sizeof(Table)); t->n = 256; t->key = (u64 *)bump(256 * 8); t->val = (u64 *)bump(256 * 8);
    for (int i = 0; i < 256; ++i) { t->key[i] = i; const void *q = memchr((void *)(d + pos), i, n - pos); t->val[i] = q ? (u64)q - d : ~0ull; }
    SHRET(mkraw(OP_TABLE, 64, (u64)t, c)); return single_mode ? evalm(E_(sx_ret[0]), model) : 0; }
  if (anyFlag(d + pos * u, (n - pos) * u)) { // symbolic text: one path per position keeps later indexing concrete
    for (u64 i = pos; i < n; ++i) if (do_branch(mk_cmp(OP_EQ, cellAt(d + i * u, u), c), __builtin_return_address(0))) return i;
    return ~0ull; }
  E *r = mkc(64, ~0ull);
  for (u64 i = n; i-- > pos;) r = mk_ite(mk_cmp(OP_EQ, cellAt(d + i * u, u), c), mkc(64, i), r);
  if (isc(r)) return r->val;
  SHRET(r); return single_mode ? evalm(r, model) : 0;
}
size_t sx_m_sfind(void *s, char c, size_t pos) { u64 cs = argS(0), ps = argS(1); SHRET(0); if (ps) pos = sx_conc(ps); return sfind(s, val(cs, (u8)c, 8), pos, 1); }
size_t sx_m_wsfind(void *s, wchar_t c, size_t pos) { u64 cs = argS(0), ps = argS(1); SHRET(0); if (ps) pos = sx_conc(ps); return sfind(s, val(cs, (u32)c, 32), pos, 4); }
int sx_m_strcasecmp(const char *a, const char *b) { SHRET(0); u64 n = slen((u64)a, 1, ~0ull), m = slen((u64)b, 1, ~0ull); sx_concmem((void *)a, n); sx_concmem((void *)b, m); return strcasecmp(a, b); }
static int chmodel(int c, int (*f)(int)) {
  u64 s = argS(0); SHRET(0); if (!s) return f(c);
  Table *t = (Table *)bump(sizeof(Table)); t->n = 0; t->key = (u64 *)bump(384 * 8); t->val = (u64 *)bump(384 * 8);
  E *e = E_(s), *lo = mk_extract(e, 0, 8);
  // require 0..255 (or a negative char, handled by its low byte as glibc's tables do for chars)
  E *in = mk_cmp(OP_ULT, e, mkc(32, 256));
  if (!do_branch(in, __builtin_return_address(0))) { u64 v = sx_conc(s); return f((int)v); }
  for (int i = 0; i < 256; ++i) { t->key[i] = i; t->val[i] = (u32)f(i); } t->n = 256;
  SHRET(mkraw(OP_TABLE, 32, (u64)t, lo)); return single_mode ? (int)evalm(E_(sx_ret[0]), model) : 0;
}
#define CHM(n) int sx_m_##n(int c) { return chmodel(c, n); }
CHM(tolower) CHM(toupper) CHM(isspace) CHM(isdigit) CHM(isalpha) CHM(isalnum) CHM(isupper) CHM(islower) CHM(isxdigit) CHM(ispunct) CHM(isprint) CHM(iscntrl) CHM(isgraph)
static u32 wmodel(u32 c, u32 (*f)(u32)) { u64 s = argS(0); SHRET(0); if (!s) return f(c);
  if (do_branch(mk_cmp(OP_ULT, E_(s), mkc(32, 128)), __builtin_return_address(0))) {
    Table *t = (Table *)bump(sizeof(Table)); t->n = 128; t->key = (u64 *)bump(128 * 8); t->val = (u64 *)bump(128 * 8); for (int i = 0; i < 128; ++i) { t->key[i] = i; t->val[i] = f(i); }
    SHRET(mkraw(OP_TABLE, 32, (u64)t, mk_extract(E_(s), 0, 7))); return single_mode ? (u32)evalm(E_(sx_ret[0]), model) : 0; }
  return f((u32)sx_conc(s)); }
#define WM(n) int sx_m_##n(wint_t c) { return (int)wmodel(c, [](u32 x) { return (u32)n(x); }); }
WM(iswspace) WM(iswdigit) WM(iswalpha) WM(iswalnum) WM(iswupper) WM(iswlower)
wint_t sx_m_towlower(wint_t c) { return wmodel(c, [](u32 x) { return (u32)towlower(x); }); }
wint_t sx_m_towupper(wint_t c) { return wmodel(c, [](u32 x) { return (u32)towupper(x); }); }
static void concstr(const char *s) { u64 n = slen((u64)s, 1, ~0ull); sx_concmem((void *)s, n); }
double sx_m_strtod(const char *s, char **e) { SHRET(0); concstr(s); if (e) sx_clear(e, 8); return strtod(s, e); }
float sx_m_strtof(const char *s, char **e) { SHRET(0); concstr(s); if (e) sx_clear(e, 8); return strtof(s, e); }
long sx_m_strtol(const char *s, char **e, int b) { SHRET(0); concstr(s); if (e) sx_clear(e, 8); return strtol(s, e, b); }
unsigned long sx_m_strtoul(const char *s, char **e, int b) { SHRET(0); concstr(s); if (e) sx_clear(e, 8); return strtoul(s, e, b); }
long long sx_m_strtoll(const char *s, char **e, int b) { SHRET(0); concstr(s); if (e) sx_clear(e, 8); return strtoll(s, e, b); }
unsigned long long sx_m_strtoull(const char *s, char **e, int b) { SHRET(0); concstr(s); if (e) sx_clear(e, 8); return strtoull(s, e, b); }
int sx_m_atoi(const char *s) { SHRET(0); concstr(s); return atoi(s); }
long sx_m_atol(const char *s) { SHRET(0); concstr(s); return atol(s); }
double sx_m_atof(const char *s) { SHRET(0); concstr(s); return atof(s); }
long long sx_m_atoll(const char *s) { SHRET(0); concstr(s); return atoll(s); }
int sx_m_strncasecmp(const char *a, const char *b, size_t n) { n = conc_sz(n, 2); SHRET(0); u64 x = slen((u64)a, 1, n), y = slen((u64)b, 1, n); sx_concmem((void *)a, x < n ? x : n); sx_concmem((void *)b, y < n ? y : n); return strncasecmp(a, b, n); }
const char *sx_m_strstr(const char *a, const char *b) { SHRET(0); concstr(a); concstr(b); return strstr(a, b); }
size_t sx_m_strspn(const char *a, const char *b) { SHRET(0); concstr(a); concstr(b); return strspn(a, b); }
size_t sx_m_strcspn(const char *a, const char *b) { SHRET(0); concstr(a); concstr(b); return strcspn(a, b); }
const char *sx_m_strpbrk(const char *a, const char *b) { SHRET(0); concstr(a); concstr(b); return strpbrk(a, b); }
namespace { struct locstub; }
void real_convert_f(const char *, float *, int *, void *) __asm__("_ZSt14__convert_to_vIfEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct");
void sx_m_convert_f(const char *s, float *d, int *st, void *loc) { concstr(s); sx_clear(d, 4); sx_clear(st, 4); real_convert_f(s, d, st, loc); }
void real_convert_d(const char *, double *, int *, void *) __asm__("_ZSt14__convert_to_vIdEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct");
void sx_m_convert_d(const char *s, double *d, int *st, void *loc) { concstr(s); sx_clear(d, 8); sx_clear(st, 4); real_convert_d(s, d, st, loc); }
void *sx_m_memcpy(void *d, const void *s, size_t n) { n = conc_sz(n, 0); SHRET(0); sx_memcpy(d, (void *)s, n); return memcpy(d, s, n); }
void *sx_m_memmove(void *d, const void *s, size_t n) { n = conc_sz(n, 0); SHRET(0); sx_memcpy(d, (void *)s, n); return memmove(d, s, n); }
void *sx_m_memset(void *d, int c, size_t n) { u64 cs = argS(0); n = conc_sz(n, 1); SHRET(0); sx_memset(d, cs, n); return memset(d, c, n); }
wchar_t *sx_m_wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { n = conc_sz(n, 0); SHRET(0); sx_memcpy(d, (void *)s, n * 4); return wmemcpy(d, s, n); }
wchar_t *sx_m_wmemmove(wchar_t *d, const wchar_t *s, size_t n) { n = conc_sz(n, 0); SHRET(0); sx_memcpy(d, (void *)s, n * 4); return wmemmove(d, s, n); }
wchar_t *sx_m_wmemset(wchar_t *d, wchar_t c, size_t n) { u64 cs = argS(0); n = conc_sz(n, 1); SHRET(0); wmemset(d, c, n); if (cs) for (u64 i = 0; i < n; ++i) sx_store(d + i, 4, cs); else sx_clear(d, n * 4); return d; }
char *sx_m_strcpy(char *d, const char *s) { SHRET(0); u64 n = slen((u64)s, 1, ~0ull); sx_memcpy(d, (void *)s, n + 1); memcpy(d, s, n); d[n] = 0; setb((u64)d + n, 0); return d; }
char *sx_m_strncpy(char *d, const char *s, size_t l) { l = conc_sz(l, 0); SHRET(0); u64 n = slen((u64)s, 1, l); sx_memcpy(d, (void *)s, n); sx_clear(d + n, l - n); memcpy(d, s, n); memset(d + n, 0, l - n); return d; }
double sx_m_fmod(double a, double b) { u64 x = argS(0), y = argS(1); SHRET(0); if (x) { u64 v = sx_conc(x); memcpy(&a, &v, 8); } if (y) { u64 v = sx_conc(y); memcpy(&b, &v, 8); } return fmod(a, b); }
#define FPM(n, c) double sx_m_##n(double a) { u64 x = argS(0); SHRET(0); if (!x) return n(a); SHRET(sx_cast(c, 64, 64, x)); return 0; }
FPM(floor, C_FLOOR) FPM(ceil, C_CEIL) FPM(round, C_ROUND) FPM(trunc, C_TRUNCF)
int sx_m_vsnprintf(char *b, size_t n, const char *f, va_list ap) { SHRET(0); int r = vsnprintf(b, n, f, ap); sx_clear(b, n); return r; }
int sx_m_snprintf(char *b, size_t n, const char *f, ...) { SHRET(0); va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); sx_clear(b, n); return r; }

// ---------------------------------------------------------------- harness API
static E *newvar() {
  if (nvars >= NB) path_exit(1, "too many symbolic bytes");
  rt_events++; int i = nvars++; for (int q = 0; q < 4; ++q) dom[i].b[q] = ~0ull;
  return mkraw(OP_VAR, 8, i);
}
unsigned char symx_byte(void) { E *v = newvar(); SHRET(v);
  if (single_mode) { int i = nvars - 1; u8 x = i < single_n ? single_in[i] : 0; model[i] = x; add(mk_cmp(OP_EQ, v, mkc(8, x))); return x; }
  return 0; }
unsigned symx_choose(unsigned n) {
  if (n <= 1) { SHRET(0); return 0; }
  E *v = newvar(); E *c = mk_cmp(OP_ULT, v, mkc(8, n));
  if (single_mode) { int i = nvars - 1; u8 x = i < single_n ? single_in[i] : 0; model[i] = x; add(mk_cmp(OP_EQ, v, mkc(8, x))); if (x >= n) path_exit(2); SHRET(mk_zext(v, 32)); return x; }
  if (n < 256) add(c); SHRET(mk_zext(v, 32)); return 0; }
unsigned symx_concrete(unsigned v) { u64 s = argS(0); SHRET(0); return s ? (unsigned)sx_conc(s) : v; }
void symx_assume(bool c) {
  u64 s = argS(0); if (!s) { if (!c) path_exit(2); return; }
  E *e = E_(s); if (isc(e)) { if (!e->val) path_exit(2); return; }
  if (evalm(e, model)) { add(e); return; }
  u8 m[NB]; int r = feasible(e, m);
  if (r == R_UNKNOWN) path_exit(1, "solver unknown at assume");
  if (r == R_UNSAT) path_exit(2);
  memcpy(model, m, NB); add(e);
}
void symx_check(bool c, const char *id) {
  u64 s = argS(0); NamedCount *nc = named(ctl->ids, MAXIDS, id); nc->n++;
  if (!s) { ctl->checks_conc++; if (!c) { ++in_rt; record_violation(id, model, "assertion is false on this whole path"); path_exit(3); } return; }
  E *e = E_(s); ctl->checks_sym++;
  if (isc(e)) { if (!e->val) { ++in_rt; record_violation(id, model, "assertion"); path_exit(3); } return; }
  u8 m[NB]; int r = solve(mk_not(e), m);
  if (r == R_UNKNOWN) { path_exit(1, "solver unknown at assertion"); }
  if (r == R_SAT) { { RT g; record_violation(id, m, "assertion"); } u8 m2[NB]; int q = feasible(e, m2); if (q != R_SAT) path_exit(3); if (!evalm(e, model)) memcpy(model, m2, NB); add(e); }
}
void symx_fail(const char *id) { ++in_rt; named(ctl->ids, MAXIDS, id)->n++; record_violation(id, model, "reached"); path_exit(3); }
void symx_reach(const char *id) { named(ctl->reach, MAXREACH, id)->n++; }
void symx_observe_u64(unsigned long long v) { u64 s = argS(0); RT g; obs->push_back(Obs{s ? E_(s) : 0, v}); }
static long live_count = 0;
long symx_live(void) { SHRET(0); return live_count; }
int symx_replaying(void) { SHRET(0); return 0; }
void symx_note(const char *, ...) {}
int symx_tier(void) { SHRET(0); return tier; }
int symx_param(const char *name, int d) { SHRET(0); std::string k; { RT g; k = std::string("SYMX_P_") + name; const char *v = getenv(k.c_str()); if (v) d = atoi(v); std::string().swap(k); } return d; }
}
void symx_observe_impl(const void *p, size_t n) {
  if (u64 s = argS(0)) n = sx_conc(s);
  RT g; for (size_t i = 0; i < n; ++i) { E *e = getb((u64)p + i); obs->push_back(Obs{e, ((const u8 *)p)[i]}); } }
extern "C" void symx_observe(const void *p, size_t n) { symx_observe_impl(p, n); }

static void hook_m(const volatile void *p, size_t n) { if (in_rt) return; live_count++; if (n) sx_clear((void *)p, n); }
static void hook_f(const volatile void *p) { if (in_rt || !p) return; live_count--; }
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1:print_summary=0:symbolize=0:quarantine_size_mb=4:malloc_context_size=0:fast_unwind_on_malloc=1:detect_container_overflow=0:use_sigaltstack=1:allow_user_segv_handler=1:handle_segv=1:max_allocation_size_mb=2048"; }

// ---------------------------------------------------------------- main
static std::string jesc(const char *s) { std::string r; for (; *s; ++s) { if (*s == '"' || *s == '\\') r += '\\'; if ((u8)*s < 32) { r += ' '; continue; } r += *s; } return r; }
__attribute__((constructor(101))) static void early() {
  ++in_rt;
  ctl = (Ctl *)mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sx_cov = ctl->cov;
  cache = (CacheEnt *)mmap(0, sizeof(CacheEnt) * (size_t)CACHE_N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  multi = new std::vector<E *>(); singles = new std::vector<E *>[NB]; obs = new std::vector<Obs>(); multi->reserve(256); obs->reserve(1024);
  --in_rt;
}
int main(int argc, char **argv) {
  ++in_rt;
  setvbuf(stdout, 0, _IOLBF, 0);
  auto env = [](const char *n, double d) { const char *v = getenv(n); return v ? atof(v) : d; };
  outdir = getenv("SYMX_OUT") ? getenv("SYMX_OUT") : "/tmp/symx-out";
  t_start = now(); t_deadline = t_start + env("SYMX_BUDGET", 60);
  nslots = (int)env("SYMX_JOBS", 8); maxviol = (int)env("SYMX_MAXVIOL", 8); maxsamples = (int)env("SYMX_SAMPLES", 48); tier = (int)env("SYMX_TIER", 0); prof_on = (int)env("SYMX_PROF", 0);
  z3all = (int)env("SYMX_Z3ALL", 1); g_rlimit = (unsigned)env("SYMX_RLIMIT", 40000000); hang_ticks = (int)env("SYMX_HANG", 10); maxPerId = (int)env("SYMX_PERID", 2);
  rng_seed = (u64)env("VERIF_SEED", 1) * 0x9E3779B97F4A7C15ull + 12345;
  if (const char *sf = getenv("SYMX_SINGLE")) { single_mode = 1; FILE *f = fopen(sf, "rb"); if (f) { if (getenv("REPLAY_SAMPLE")) fseek(f, 8, SEEK_SET); single_n = fread(single_in, 1, NB, f); fclose(f); } }
  mkdir(outdir.c_str(), 0755); mkdir((outdir + "/samples").c_str(), 0755);
  if (nslots > 16) nslots = 16;
  signal(SIGPIPE, SIG_IGN);
  { const char *sp = getenv("SYMX_SOLVER"); if (!sp) { fprintf(stderr, "SYMX_SOLVER not set\n"); return 2; }
    for (int k = 0; k < nslots; ++k) { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) return 2;
      int bs = 1 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &bs, sizeof bs);
      pid_t q = fork(); if (q == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(sv[1], 0); dup2(sv[1], 1); execl(sp, sp, (char *)0); _exit(3); }
      close(sv[1]); srv_fd[k] = sv[0]; } }
  int pfd[2]; if (pipe2(pfd, 0)) return 2;
  ctl->slots = nslots - 1; ctl->started = 1;
  pid_t p = fork();
  if (p == 0) {
    close(pfd[0]);
    signal(SIGCHLD, SIG_IGN);
    int errfd = open("/dev/null", O_WRONLY); if (!getenv("SYMX_VERBOSE")) { dup2(errfd, 1); dup2(errfd, 2); }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    stack_t ss; ss.ss_size = 1 << 16; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGBUS}) sigaction(s, &sa, 0);
    struct sigaction sp; memset(&sp, 0, sizeof sp); sp.sa_handler = on_prof; sp.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &sp, 0);
    start_timer();
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
    sx_callee = 0; memset(sx_args, 0, sizeof sx_args); memset(sx_ret, 0, sizeof sx_ret);
    in_rt = 0;
    try { symx_main(); }
    catch (...) { ++in_rt; char b[200]; std::type_info *t = abi::__cxa_current_exception_type(); snprintf(b, sizeof b, "crash:uncaught:%s", t ? t->name() : "?"); record_violation(b, model, b); path_exit(3); }
    path_exit(0);
  }
  close(pfd[1]);
  char c; while (read(pfd[0], &c, 1) < 0 && errno == EINTR) {}
  for (int k = 0; k < nslots; ++k) close(srv_fd[k]);
  while (waitpid(-1, 0, WNOHANG) > 0) {}
  double el = now() - t_start;
  FILE *f = fopen((outdir + "/result.json").c_str(), "w"); if (!f) return 2;
  u64 lost = ctl->started - ctl->finished;
  fprintf(f, "{\n\"paths\": %llu, \"finished\": %llu, \"lost\": %llu, \"incomplete\": %llu, \"pruned\": %llu, \"forks\": %llu, \"branches\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"solver_seconds\": %.3f, \"max_query_seconds\": %.3f, \"checks_symbolic\": %llu, \"checks_on_path\": %llu, \"concretizations\": %llu, \"violations\": %d, \"seconds\": %.2f, \"stopped\": %d,\n",
          (unsigned long long)ctl->started, (unsigned long long)ctl->finished, (unsigned long long)lost, (unsigned long long)ctl->incomplete, (unsigned long long)ctl->pruned, (unsigned long long)ctl->forks, (unsigned long long)ctl->branches, (unsigned long long)ctl->queries, (unsigned long long)ctl->sat,
          (unsigned long long)ctl->unsat, (unsigned long long)ctl->unknown, (unsigned long long)ctl->cache_hits, ctl->solver_us / 1e6, ctl->max_query_us / 1e6, (unsigned long long)ctl->checks_sym, (unsigned long long)ctl->checks_conc, (unsigned long long)ctl->concs, ctl->nviol.load(), el, ctl->stop.load());
  auto tab = [&](const char *n, NamedCount *t, int k, bool viol) { fprintf(f, "\"%s\": {", n); bool first = true; for (int i = 0; i < k; ++i) if (t[i].used == 2) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(t[i].name).c_str(), (unsigned long long)(viol ? t[i].m : t[i].n)); first = false; } fprintf(f, "},\n"); };
  tab("reach", ctl->reach, MAXREACH, false); tab("checks", ctl->ids, MAXIDS, false); tab("check_violations", ctl->ids, MAXIDS, true); tab("incomplete_reasons", ctl->reasons, MAXREASON, false); tab("indirect_natives", ctl->icalls, 256, false);
  fprintf(f, "\"functions\": [");
  bool first = true; for (u64 i = 0; i < fn_n && i < MAXCOV; ++i) if (ctl->cov[i]) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)i); first = false; }
  fprintf(f, "]\n}\n"); fclose(f);
  if (prof_on) { FILE *pf = fopen((outdir + "/prof.txt").c_str(), "w"); for (int i = 0; i < MAXPROF; ++i) if (ctl->prof[i].n) fprintf(pf, "%llu 0x%llx\n", (unsigned long long)ctl->prof[i].n, (unsigned long long)ctl->prof[i].pc - 1); fclose(pf); }
  printf("symx: paths=%llu incomplete=%llu lost=%llu viol=%d queries=%llu solver=%.1fs time=%.1fs\n", (unsigned long long)ctl->started, (unsigned long long)ctl->incomplete, (unsigned long long)lost, ctl->nviol.load(), (unsigned long long)ctl->queries, ctl->solver_us / 1e6, el);
  return 0;
}
