// symx solver process: decides conjunctions of bit-vector / floating point expressions with Z3.
// Runs outside the instrumented program (no sanitizer, own heap); one request at a time.
#include <z3.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <map>
#include <string>
#include <unistd.h>
#include <cerrno>
#include <unordered_map>
#include <vector>
#include "ops.h"
static bool g_bad;
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
struct Table { int n; u64 *key, *val; };
struct E { u8 op, w; u64 val; E *k[3]; u32 id; u8 nk; Z3_ast ast, lit; };
static bool isc(E *e) { return e->op == OP_CONST; }
static Z3_context zc;
static void z3err(Z3_context, Z3_error_code) {}
static void zinit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  zc = Z3_mk_context(cfg);
  Z3_set_error_handler(zc, z3err);
  Z3_del_config(cfg);
}
static Z3_sort S_bv[65], S_fp[65]; static Z3_ast S_rne;
static void g_sorts_reset() { memset(S_bv, 0, sizeof S_bv); memset(S_fp, 0, sizeof S_fp); S_rne = 0; }
static Z3_sort bvs(unsigned w) { Z3_sort *s = S_bv; if (!s[w]) { s[w] = Z3_mk_bv_sort(zc, w); Z3_inc_ref(zc, (Z3_ast)s[w]); } return s[w]; }
static Z3_sort fps(unsigned w) { Z3_sort *s = S_fp; if (!s[w]) { s[w] = w == 32 ? Z3_mk_fpa_sort_32(zc) : Z3_mk_fpa_sort_64(zc); Z3_inc_ref(zc, (Z3_ast)s[w]); } return s[w]; }
static Z3_ast rne() { Z3_ast &r = S_rne; if (!r) { r = Z3_mk_fpa_rne(zc); Z3_inc_ref(zc, r); } return r; }
static Z3_ast zbv(E *e);
static Z3_ast bool2bv(Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, bvs(1)), Z3_mk_unsigned_int64(zc, 0, bvs(1))); }
static Z3_ast tofp(E *e) { return Z3_mk_fpa_to_fp_bv(zc, zbv(e), fps(e->w)); }
static Z3_ast rm_of(u64 c) { switch (c) { case C_FLOOR: return Z3_mk_fpa_rtn(zc); case C_CEIL: return Z3_mk_fpa_rtp(zc); case C_TRUNCF: return Z3_mk_fpa_rtz(zc); case C_ROUND: return Z3_mk_fpa_rna(zc); default: return rne(); } }
static Z3_ast fp2bv(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(zc, f); }
// booleans are represented as Z3 Bool when w==1
static Z3_ast zb(E *e);
static Z3_ast zbv_(E *e) {
  if (e->w == 1 && e->op != OP_VAR && e->op != OP_CONST && e->op != OP_EXTRACT && e->op != OP_TABLE) return bool2bv(zb(e));
  switch (e->op) {
  case OP_CONST: return Z3_mk_unsigned_int64(zc, e->val, bvs(e->w));
  case OP_VAR: return Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)e->val), bvs(8));
  case OP_ADD: return Z3_mk_bvadd(zc, zbv(e->k[0]), zbv(e->k[1])); case OP_SUB: return Z3_mk_bvsub(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_MUL: return Z3_mk_bvmul(zc, zbv(e->k[0]), zbv(e->k[1])); case OP_UDIV: return Z3_mk_bvudiv(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_SDIV: return Z3_mk_bvsdiv(zc, zbv(e->k[0]), zbv(e->k[1])); case OP_UREM: return Z3_mk_bvurem(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_SREM: return Z3_mk_bvsrem(zc, zbv(e->k[0]), zbv(e->k[1])); case OP_SHL: return Z3_mk_bvshl(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_LSHR: return Z3_mk_bvlshr(zc, zbv(e->k[0]), zbv(e->k[1])); case OP_ASHR: return Z3_mk_bvashr(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_AND: return Z3_mk_bvand(zc, zbv(e->k[0]), zbv(e->k[1])); case OP_OR: return Z3_mk_bvor(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_XOR: return Z3_mk_bvxor(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_ZEXT: return Z3_mk_zero_ext(zc, e->w - e->k[0]->w, zbv(e->k[0])); case OP_SEXT: return Z3_mk_sign_ext(zc, e->w - e->k[0]->w, zbv(e->k[0]));
  case OP_EXTRACT: return Z3_mk_extract(zc, e->val + e->w - 1, e->val, zbv(e->k[0]));
  case OP_CONCAT: return Z3_mk_concat(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_ITE: return Z3_mk_ite(zc, zb(e->k[0]), zbv(e->k[1]), zbv(e->k[2]));
  case OP_FADD: return fp2bv(Z3_mk_fpa_add(zc, rne(), tofp(e->k[0]), tofp(e->k[1]))); case OP_FSUB: return fp2bv(Z3_mk_fpa_sub(zc, rne(), tofp(e->k[0]), tofp(e->k[1])));
  case OP_FMUL: return fp2bv(Z3_mk_fpa_mul(zc, rne(), tofp(e->k[0]), tofp(e->k[1]))); case OP_FDIV: return fp2bv(Z3_mk_fpa_div(zc, rne(), tofp(e->k[0]), tofp(e->k[1])));
  case OP_FP1: return e->val == C_SQRT ? fp2bv(Z3_mk_fpa_sqrt(zc, rne(), tofp(e->k[0]))) : fp2bv(Z3_mk_fpa_round_to_integral(zc, rm_of(e->val), tofp(e->k[0])));
  case OP_FPCONV:
    switch (e->val) {
    case C_SITOFP: return fp2bv(Z3_mk_fpa_to_fp_signed(zc, rne(), zbv(e->k[0]), fps(e->w))); case C_UITOFP: return fp2bv(Z3_mk_fpa_to_fp_unsigned(zc, rne(), zbv(e->k[0]), fps(e->w)));
    case C_FPTOSI: return Z3_mk_fpa_to_sbv(zc, Z3_mk_fpa_rtz(zc), tofp(e->k[0]), e->w); case C_FPTOUI: return Z3_mk_fpa_to_ubv(zc, Z3_mk_fpa_rtz(zc), tofp(e->k[0]), e->w);
    default: return fp2bv(Z3_mk_fpa_to_fp_float(zc, rne(), tofp(e->k[0]), fps(e->w)));
    }
  case OP_TABLE: {
    Table *t = (Table *)e->val; E *x = e->k[0]; Z3_ast zx = zbv(x);
    // group keys into affine runs
    Z3_ast r = 0; int i = 0; std::vector<std::pair<int, int>> runs;
    while (i < t->n) { int j = i; while (j + 1 < t->n && t->key[j + 1] == t->key[j] + 1 && t->val[j + 1] == t->val[i]) ++j;
      if (j == i) { while (j + 1 < t->n && t->key[j + 1] == t->key[j] + 1 && (t->val[j + 1] & maskw(e->w)) == ((t->val[j] + 1) & maskw(e->w))) ++j; }
      runs.push_back({i, j}); i = j + 1; }
    for (int q = (int)runs.size() - 1; q >= 0; --q) {
      int a = runs[q].first, b = runs[q].second; Z3_ast v;
      if (a == b || t->val[a] == t->val[b]) v = Z3_mk_unsigned_int64(zc, t->val[a] & maskw(e->w), bvs(e->w));
      else { Z3_ast y = x->w == e->w ? zx : x->w > e->w ? Z3_mk_extract(zc, e->w - 1, 0, zx) : Z3_mk_zero_ext(zc, e->w - x->w, zx);
        v = Z3_mk_bvadd(zc, y, Z3_mk_unsigned_int64(zc, (t->val[a] - t->key[a]) & maskw(e->w), bvs(e->w))); }
      if (!r) r = v; else {
        Z3_ast ge = Z3_mk_bvuge(zc, zx, Z3_mk_unsigned_int64(zc, t->key[a], bvs(x->w))), le = Z3_mk_bvule(zc, zx, Z3_mk_unsigned_int64(zc, t->key[b], bvs(x->w)));
        Z3_ast c[2] = {ge, le}; r = Z3_mk_ite(zc, Z3_mk_and(zc, 2, c), v, r); }
    }
    return r; }
  }
  return Z3_mk_unsigned_int64(zc, 0, bvs(e->w));
}
static Z3_ast zb_(E *e) {
  switch (e->op) {
  case OP_CONST: return e->val ? Z3_mk_true(zc) : Z3_mk_false(zc);
  case OP_AND: { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; return Z3_mk_and(zc, 2, a); }
  case OP_OR: { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; return Z3_mk_or(zc, 2, a); }
  case OP_XOR: if (isc(e->k[1])) return e->k[1]->val ? Z3_mk_not(zc, zb(e->k[0])) : zb(e->k[0]); return Z3_mk_xor(zc, zb(e->k[0]), zb(e->k[1]));
  case OP_EQ: if (e->k[0]->w == 1) return Z3_mk_iff(zc, zb(e->k[0]), zb(e->k[1])); return Z3_mk_eq(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_ULT: return Z3_mk_bvult(zc, zbv(e->k[0]), zbv(e->k[1])); case OP_ULE: return Z3_mk_bvule(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_SLT: return Z3_mk_bvslt(zc, zbv(e->k[0]), zbv(e->k[1])); case OP_SLE: return Z3_mk_bvsle(zc, zbv(e->k[0]), zbv(e->k[1]));
  case OP_ITE: return Z3_mk_ite(zc, zb(e->k[0]), zb(e->k[1]), zb(e->k[2]));
  case OP_FEQ: return Z3_mk_fpa_eq(zc, tofp(e->k[0]), tofp(e->k[1])); case OP_FLT: return Z3_mk_fpa_lt(zc, tofp(e->k[0]), tofp(e->k[1])); case OP_FLE: return Z3_mk_fpa_leq(zc, tofp(e->k[0]), tofp(e->k[1]));
  case OP_FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(zc, tofp(e->k[0])), Z3_mk_fpa_is_nan(zc, tofp(e->k[1]))}; return Z3_mk_or(zc, 2, a); }
  case OP_VAR: case OP_EXTRACT: case OP_TABLE: return Z3_mk_eq(zc, zbv(e), Z3_mk_unsigned_int64(zc, 1, bvs(1)));
  case OP_ADD: case OP_SUB: return Z3_mk_xor(zc, zb(e->k[0]), zb(e->k[1]));
  case OP_MUL: { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; return Z3_mk_and(zc, 2, a); }
  }
  g_bad = true; return Z3_mk_false(zc);
}
static Z3_ast zbv(E *e) {
  if (e->w == 1 && !(e->op == OP_VAR || e->op == OP_EXTRACT || e->op == OP_TABLE || e->op == OP_CONST)) return bool2bv(zb(e));
  if (e->ast) return e->ast;
  e->ast = zbv_(e); Z3_inc_ref(zc, e->ast); return e->ast;
}
static Z3_ast zb(E *e) {
  if (e->w == 1 && !(e->op == OP_VAR || e->op == OP_EXTRACT || e->op == OP_TABLE || e->op == OP_CONST)) {
    if (e->ast) return e->ast;
    e->ast = zb_(e); Z3_inc_ref(zc, e->ast); return e->ast;
  }
  return zb_(e);
}


struct Key { u8 op, w; u32 k0, k1, k2; u64 val; bool operator==(const Key &o) const { return op == o.op && w == o.w && k0 == o.k0 && k1 == o.k1 && k2 == o.k2 && val == o.val; } };
struct KH { size_t operator()(const Key &k) const { u64 h = k.val * 0x9E3779B97F4A7C15ull ^ k.op * 1000003u ^ k.w; h = (h ^ k.k0) * 0xff51afd7ed558ccdull; h = (h ^ k.k1) * 0xc4ceb9fe1a85ec53ull; h = (h ^ k.k2) * 0xff51afd7ed558ccdull; return h ^ h >> 33; } };
static std::unordered_map<Key, E *, KH> memo;
static std::map<std::vector<u64>, Table *> tabs;
static Z3_solver bv; static unsigned nlits, gid;
static void reset() { // fresh context: bounds memory and keeps the incremental solver small
  if (zc) { if (bv) Z3_solver_dec_ref(zc, bv); Z3_del_context(zc); }
  for (auto &k : memo) delete k.second; memo.clear();
  for (auto &t : tabs) { delete[] t.second->key; delete[] t.second->val; delete t.second; } tabs.clear();
  bv = 0; nlits = 0; g_sorts_reset(); zinit();
}
static bool rd(void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(0, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; } return true; }
static void wr(const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(1, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) _exit(0); c += k; n -= k; } }
int main() {
  unsigned lim = getenv("SYMX_SOLVER_RESET") ? atoi(getenv("SYMX_SOLVER_RESET")) : 400;
  reset();
  WReq q; std::vector<WNode> ns; std::vector<u32> roots; std::vector<u64> tb; std::vector<E *> es;
  while (rd(&q, sizeof q)) {
    if (q.magic != 0x51424d53) _exit(4);
    ns.resize(q.nodes); roots.resize(q.roots); tb.resize(q.tabs); es.resize(q.nodes);
    if (!rd(ns.data(), q.nodes * sizeof(WNode)) || !rd(roots.data(), q.roots * 4) || !rd(tb.data(), q.tabs * 8)) break;
    if (nlits > lim || memo.size() > 60000) reset();
    g_bad = false;
    for (u32 i = 0; i < q.nodes; ++i) {
      WNode &n = ns[i]; u64 v = n.val;
      if (n.op == OP_TABLE) { u64 *t = &tb[n.val]; std::vector<u64> key(t, t + 1 + 2 * t[0]); Table *&T = tabs[key];
        if (!T) { T = new Table; T->n = t[0]; T->key = new u64[t[0]]; T->val = new u64[t[0]]; memcpy(T->key, t + 1, 8 * t[0]); memcpy(T->val, t + 1 + t[0], 8 * t[0]); } v = (u64)T; }
      Key k{n.op, n.w, n.nk > 0 ? es[n.k[0]]->id : 0, n.nk > 1 ? es[n.k[1]]->id : 0, n.nk > 2 ? es[n.k[2]]->id : 0, v};
      E *&e = memo[k];
      if (!e) { e = new E; memset(e, 0, sizeof *e); e->op = n.op; e->w = n.w; e->nk = n.nk; e->val = v; e->id = ++gid; for (int j = 0; j < n.nk; ++j) e->k[j] = es[n.k[j]]; }
      es[i] = e;
    }
    Z3_solver sv;
    if (q.fp) { sv = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_FPBV")); Z3_solver_inc_ref(zc, sv); }
    else { if (!bv) { bv = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, bv); } sv = bv; }
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), q.rlimit);
    Z3_solver_set_params(zc, sv, p); Z3_params_dec_ref(zc, p);
    Z3_lbool r;
    if (q.fp) { for (u32 x : roots) Z3_solver_assert(zc, sv, zb(es[x])); r = Z3_solver_check(zc, sv); }
    else {
      std::vector<Z3_ast> as;
      for (u32 x : roots) { E *e = es[x];
        if (!e->lit) { e->lit = Z3_mk_const(zc, Z3_mk_int_symbol(zc, 1000000 + (int)e->id), Z3_mk_bool_sort(zc)); Z3_solver_assert(zc, sv, Z3_mk_implies(zc, e->lit, zb(e))); nlits++; }
        as.push_back(e->lit); }
      r = Z3_solver_check_assumptions(zc, sv, as.size(), as.data());
    }
    WResp rs; memset(&rs, 0, sizeof rs); rs.magic = q.magic; rs.seq = q.seq;
    rs.result = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : 2;
    if (g_bad) rs.result = 2;
    if (rs.result == 1) {
      Z3_model mo = Z3_solver_get_model(zc, sv); Z3_model_inc_ref(zc, mo);
      for (E *e : es) if (e->op == OP_VAR) { Z3_ast out; if (Z3_model_eval(zc, mo, zbv(e), true, &out)) { uint64_t v; if (Z3_get_numeral_uint64(zc, out, &v)) { rs.model[e->val & 255] = (u8)v; rs.has[e->val & 255] = 1; } } }
      Z3_model_dec_ref(zc, mo);
    }
    if (q.fp) { Z3_solver_dec_ref(zc, sv); nlits += 20; }
    wr(&rs, sizeof rs);
  }
  _exit(0);
}
