#include "solver.h"

#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <set>
#include <map>
#include <cstring>
#include <sstream>
#include <unordered_map>
#include <functional>
SolverStats g_stats; SolverOpts g_sopts;
static Z3_context C;
static std::unordered_map<uint64_t, Z3_ast> symAst;
static std::vector<Z3_ast> keep;

// every term is kept alive for the life of the process (one job)
static Z3_ast K(Z3_ast a) { if (a) Z3_inc_ref(C, a); return a; }
#define Z3_mk_add(...) K(Z3_mk_add(__VA_ARGS__))
#define Z3_mk_and(...) K(Z3_mk_and(__VA_ARGS__))
#define Z3_mk_bvadd(...) K(Z3_mk_bvadd(__VA_ARGS__))
#define Z3_mk_bvand(...) K(Z3_mk_bvand(__VA_ARGS__))
#define Z3_mk_bvashr(...) K(Z3_mk_bvashr(__VA_ARGS__))
#define Z3_mk_bvlshr(...) K(Z3_mk_bvlshr(__VA_ARGS__))
#define Z3_mk_bvmul(...) K(Z3_mk_bvmul(__VA_ARGS__))
#define Z3_mk_bvor(...) K(Z3_mk_bvor(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) K(Z3_mk_bvsdiv(__VA_ARGS__))
#define Z3_mk_bvshl(...) K(Z3_mk_bvshl(__VA_ARGS__))
#define Z3_mk_bvsle(...) K(Z3_mk_bvsle(__VA_ARGS__))
#define Z3_mk_bvslt(...) K(Z3_mk_bvslt(__VA_ARGS__))
#define Z3_mk_bvsrem(...) K(Z3_mk_bvsrem(__VA_ARGS__))
#define Z3_mk_bvsub(...) K(Z3_mk_bvsub(__VA_ARGS__))
#define Z3_mk_bvudiv(...) K(Z3_mk_bvudiv(__VA_ARGS__))
#define Z3_mk_bvule(...) K(Z3_mk_bvule(__VA_ARGS__))
#define Z3_mk_bvult(...) K(Z3_mk_bvult(__VA_ARGS__))
#define Z3_mk_bvurem(...) K(Z3_mk_bvurem(__VA_ARGS__))
#define Z3_mk_bvxor(...) K(Z3_mk_bvxor(__VA_ARGS__))
#define Z3_mk_concat(...) K(Z3_mk_concat(__VA_ARGS__))
#define Z3_mk_const(...) K(Z3_mk_const(__VA_ARGS__))
#define Z3_mk_div(...) K(Z3_mk_div(__VA_ARGS__))
#define Z3_mk_eq(...) K(Z3_mk_eq(__VA_ARGS__))
#define Z3_mk_extract(...) K(Z3_mk_extract(__VA_ARGS__))
#define Z3_mk_false(...) K(Z3_mk_false(__VA_ARGS__))
#define Z3_mk_fpa_add(...) K(Z3_mk_fpa_add(__VA_ARGS__))
#define Z3_mk_fpa_div(...) K(Z3_mk_fpa_div(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) K(Z3_mk_fpa_eq(__VA_ARGS__))
#define Z3_mk_fpa_is_nan(...) K(Z3_mk_fpa_is_nan(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) K(Z3_mk_fpa_leq(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) K(Z3_mk_fpa_lt(__VA_ARGS__))
#define Z3_mk_fpa_mul(...) K(Z3_mk_fpa_mul(__VA_ARGS__))
#define Z3_mk_fpa_round_nearest_ties_to_away(...) K(Z3_mk_fpa_round_nearest_ties_to_away(__VA_ARGS__))
#define Z3_mk_fpa_round_nearest_ties_to_even(...) K(Z3_mk_fpa_round_nearest_ties_to_even(__VA_ARGS__))
#define Z3_mk_fpa_round_to_integral(...) K(Z3_mk_fpa_round_to_integral(__VA_ARGS__))
#define Z3_mk_fpa_round_toward_negative(...) K(Z3_mk_fpa_round_toward_negative(__VA_ARGS__))
#define Z3_mk_fpa_round_toward_positive(...) K(Z3_mk_fpa_round_toward_positive(__VA_ARGS__))
#define Z3_mk_fpa_round_toward_zero(...) K(Z3_mk_fpa_round_toward_zero(__VA_ARGS__))
#define Z3_mk_fpa_sub(...) K(Z3_mk_fpa_sub(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) K(Z3_mk_fpa_to_fp_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_float(...) K(Z3_mk_fpa_to_fp_float(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_signed(...) K(Z3_mk_fpa_to_fp_signed(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_unsigned(...) K(Z3_mk_fpa_to_fp_unsigned(__VA_ARGS__))
#define Z3_mk_fpa_to_ieee_bv(...) K(Z3_mk_fpa_to_ieee_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_sbv(...) K(Z3_mk_fpa_to_sbv(__VA_ARGS__))
#define Z3_mk_fpa_to_ubv(...) K(Z3_mk_fpa_to_ubv(__VA_ARGS__))
#define Z3_mk_ge(...) K(Z3_mk_ge(__VA_ARGS__))
#define Z3_mk_iff(...) K(Z3_mk_iff(__VA_ARGS__))
#define Z3_mk_ite(...) K(Z3_mk_ite(__VA_ARGS__))
#define Z3_mk_le(...) K(Z3_mk_le(__VA_ARGS__))
#define Z3_mk_lt(...) K(Z3_mk_lt(__VA_ARGS__))
#define Z3_mk_mod(...) K(Z3_mk_mod(__VA_ARGS__))
#define Z3_mk_mul(...) K(Z3_mk_mul(__VA_ARGS__))
#define Z3_mk_not(...) K(Z3_mk_not(__VA_ARGS__))
#define Z3_mk_numeral(...) K(Z3_mk_numeral(__VA_ARGS__))
#define Z3_mk_or(...) K(Z3_mk_or(__VA_ARGS__))
#define Z3_mk_sign_ext(...) K(Z3_mk_sign_ext(__VA_ARGS__))
#define Z3_mk_sub(...) K(Z3_mk_sub(__VA_ARGS__))
#define Z3_mk_true(...) K(Z3_mk_true(__VA_ARGS__))
#define Z3_mk_unary_minus(...) K(Z3_mk_unary_minus(__VA_ARGS__))
#define Z3_mk_xor(...) K(Z3_mk_xor(__VA_ARGS__))
#define Z3_mk_zero_ext(...) K(Z3_mk_zero_ext(__VA_ARGS__))
static Z3_ast inc(Z3_ast a) { return a; }
static void onErr(Z3_context c, Z3_error_code e) { static int n = 0; if (n++ > 20) _exit(3); fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static Z3_solver mkSolver(bool ints, bool fp = false) {
  const std::string& md = g_sopts.mode; Z3_solver s = !ints ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, fp ? "QF_FPBV" : "QF_BV")) : md.size() > 3 ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, md.c_str())) : md == "sim" ? Z3_mk_simple_solver(C) : Z3_mk_solver(C);
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_sopts.timeout_ms);
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  return s;
}
void solverInit() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, onErr);
}
static Z3_ast numeral(u128 v, unsigned w) { if (w == 1) return v ? Z3_mk_true(C) : Z3_mk_false(C); return Z3_mk_numeral(C, u128str(v).c_str(), Z3_mk_bv_sort(C, w)); }
static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast toFp(Z3_ast b, unsigned w) { return Z3_mk_fpa_to_fp_bv(C, b, fpSort(w)); }
static Z3_ast toBits(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(C, f); }
static Z3_ast tr1(E e) {
  auto T = [&](E x) { return (Z3_ast)x->z3; };
  Z3_ast a = e->a ? T(e->a) : 0, b = e->b ? T(e->b) : 0, c = e->c ? T(e->c) : 0;
  bool boolean = e->w == 1; unsigned aw = e->a ? e->a->w : 0;
  Z3_ast rne = Z3_mk_fpa_round_nearest_ties_to_even(C);
  switch (e->op) {
    case O_CONST: return numeral(e->k, e->w);
    case O_SYM: { uint64_t n = (uint64_t)e->k; auto it = symAst.find(n); if (it != symAst.end()) return it->second; char nm[32]; snprintf(nm, sizeof nm, "s%llu", (unsigned long long)n);
      Z3_ast x = inc(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), boolean ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w))); symAst[n] = x; return x; }
    case O_ADD: return Z3_mk_bvadd(C, a, b);
    case O_SUB: return Z3_mk_bvsub(C, a, b);
    case O_MUL: if (boolean) { Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); } return Z3_mk_bvmul(C, a, b);
    case O_UDIV: return Z3_mk_bvudiv(C, a, b);
    case O_SDIV: return Z3_mk_bvsdiv(C, a, b);
    case O_UREM: return Z3_mk_bvurem(C, a, b);
    case O_SREM: return Z3_mk_bvsrem(C, a, b);
    case O_AND: if (boolean) { Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); } return Z3_mk_bvand(C, a, b);
    case O_OR: if (boolean) { Z3_ast x[2] = {a, b}; return Z3_mk_or(C, 2, x); } return Z3_mk_bvor(C, a, b);
    case O_XOR: if (boolean) { if (isTrue(e->b)) return Z3_mk_not(C, a); return Z3_mk_xor(C, a, b); } return Z3_mk_bvxor(C, a, b);
    case O_SHL: return Z3_mk_bvshl(C, a, b);
    case O_LSHR: return Z3_mk_bvlshr(C, a, b);
    case O_ASHR: return Z3_mk_bvashr(C, a, b);
    case O_EQ: return aw == 1 ? Z3_mk_iff(C, a, b) : Z3_mk_eq(C, a, b);
    case O_ULT: return Z3_mk_bvult(C, a, b);
    case O_ULE: return Z3_mk_bvule(C, a, b);
    case O_SLT: return Z3_mk_bvslt(C, a, b);
    case O_SLE: return Z3_mk_bvsle(C, a, b);
    case O_ITE: return Z3_mk_ite(C, a, b, c);
    case O_CONCAT: { auto bv = [&](E x, Z3_ast t) { return x->w == 1 ? Z3_mk_ite(C, t, Z3_mk_numeral(C, "1", Z3_mk_bv_sort(C, 1)), Z3_mk_numeral(C, "0", Z3_mk_bv_sort(C, 1))) : t; }; return Z3_mk_concat(C, bv(e->a, a), bv(e->b, b)); }
    case O_EXTRACT: { Z3_ast x = Z3_mk_extract(C, (unsigned)e->k + e->w - 1, (unsigned)e->k, a); if (boolean) return Z3_mk_eq(C, x, Z3_mk_numeral(C, "1", Z3_mk_bv_sort(C, 1))); return x; }
    case O_ZEXT: if (aw == 1) return Z3_mk_ite(C, a, numeral(1, e->w), numeral(0, e->w)); return Z3_mk_zero_ext(C, e->w - aw, a);
    case O_SEXT: if (aw == 1) return Z3_mk_ite(C, a, numeral(maskw(e->w), e->w), numeral(0, e->w)); return Z3_mk_sign_ext(C, e->w - aw, a);
    case O_FADD: return toBits(Z3_mk_fpa_add(C, rne, toFp(a, e->w), toFp(b, e->w)));
    case O_FSUB: return toBits(Z3_mk_fpa_sub(C, rne, toFp(a, e->w), toFp(b, e->w)));
    case O_FMUL: return toBits(Z3_mk_fpa_mul(C, rne, toFp(a, e->w), toFp(b, e->w)));
    case O_FDIV: return toBits(Z3_mk_fpa_div(C, rne, toFp(a, e->w), toFp(b, e->w)));
    case O_FEQ: return Z3_mk_fpa_eq(C, toFp(a, aw), toFp(b, aw));
    case O_FLT: return Z3_mk_fpa_lt(C, toFp(a, aw), toFp(b, aw));
    case O_FLE: return Z3_mk_fpa_leq(C, toFp(a, aw), toFp(b, aw));
    case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, toFp(a, aw)), Z3_mk_fpa_is_nan(C, toFp(b, aw))}; return Z3_mk_or(C, 2, x); }
    case O_FPEXT: return toBits(Z3_mk_fpa_to_fp_float(C, rne, toFp(a, 32), fpSort(64)));
    case O_FPTRUNC: return toBits(Z3_mk_fpa_to_fp_float(C, rne, toFp(a, 64), fpSort(32)));
    case O_SITOFP: return toBits(Z3_mk_fpa_to_fp_signed(C, rne, a, fpSort(e->w)));
    case O_UITOFP: return toBits(Z3_mk_fpa_to_fp_unsigned(C, rne, a, fpSort(e->w)));
    case O_FPTOSI: return Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_round_toward_zero(C), toFp(a, aw), e->w);
    case O_FPTOUI: return Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_round_toward_zero(C), toFp(a, aw), e->w);
    case O_FROUND: { Z3_ast rm = e->k == 0 ? rne : e->k == 1 ? Z3_mk_fpa_round_nearest_ties_to_away(C) : e->k == 2 ? Z3_mk_fpa_round_toward_positive(C) : e->k == 3 ? Z3_mk_fpa_round_toward_negative(C) : Z3_mk_fpa_round_toward_zero(C); return toBits(Z3_mk_fpa_round_to_integral(C, rm, toFp(a, aw))); }
    default: fprintf(stderr, "untranslatable op %d\n", e->op); exit(3);
  }
}
static Z3_ast tr(E root) {
  if (root->z3) return (Z3_ast)root->z3;
  std::vector<E> st{root};
  while (!st.empty()) { E e = st.back(); if (e->z3) { st.pop_back(); continue; } bool go = true; for (E x : {e->a, e->b, e->c}) if (x && !x->z3) { st.push_back(x); go = false; } if (!go) continue; e->z3 = inc(tr1(e)); st.pop_back(); }
  return (Z3_ast)root->z3;
}

// ---------------------------------------------------------------- exact translation to integer arithmetic
// A width-w value is represented by its signed integer value; wrap-around is encoded exactly and is omitted
// only when the interval analysis proves that it cannot happen.
static std::vector<uint64_t> newIntSyms; static std::unordered_map<uint64_t, Z3_ast> symInt;
static Z3_sort IS() { return Z3_mk_int_sort(C); }
static std::string i128str(i128 v) { return v < 0 ? "-" + u128str((u128)0 - (u128)v) : u128str((u128)v); }
static Z3_ast inum(i128 v) { return Z3_mk_numeral(C, i128str(v).c_str(), IS()); }
static Z3_ast ipow(unsigned k) { if (k < 126) return inum((i128)1 << k); std::string s = k == 126 ? "85070591730234615865843651857942052864" : k == 127 ? "170141183460469231731687303715884105728" : "340282366920938463463374607431768211456"; return Z3_mk_numeral(C, s.c_str(), IS()); }
static Z3_ast iadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
static Z3_ast isub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
static Z3_ast imul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); }
static Z3_ast ite3(Z3_ast c, Z3_ast a, Z3_ast b) { return Z3_mk_ite(C, c, a, b); }
static bool lowMask(u128 k, unsigned& n) { n = 0; while (n < 128 && ((k >> n) & 1)) n++; return n > 0 && (n >= 128 || (k >> n) == 0); }
// mask of the form 1..10..0 inside w bits: clears n low bits
static bool highMask(u128 k, unsigned w, unsigned& n) { n = 0; while (n < w && !((k >> n) & 1)) n++; if (n >= w) return false; return (k >> n) == (maskw(w) >> n); }
// number of low bits known to be zero
static unsigned tz(E e, int d = 10) {
  if (d == 0 || e->w == 1) return 0; auto m = [](unsigned a, unsigned b) { return a < b ? a : b; };
  switch (e->op) { case O_CONST: { if (!e->k) return e->w; unsigned n = 0; while (!((e->k >> n) & 1)) n++; return n; }
    case O_SHL: return isC(e->b) ? m(e->w, (unsigned)e->b->k + tz(e->a, d - 1)) : 0; case O_MUL: return m(e->w, tz(e->a, d - 1) + tz(e->b, d - 1));
    case O_ADD: case O_SUB: case O_OR: case O_XOR: return m(tz(e->a, d - 1), tz(e->b, d - 1)); case O_AND: { unsigned x = tz(e->a, d - 1), y = tz(e->b, d - 1); return x > y ? x : y; }
    case O_ITE: return m(tz(e->b, d - 1), tz(e->c, d - 1)); case O_SEXT: case O_ZEXT: { unsigned n = e->a->w == 1 ? 0 : tz(e->a, d - 1); return n >= e->a->w && e->a->w > 1 ? e->w : n; } case O_EXTRACT: return e->k == 0 ? m(e->w, tz(e->a, d - 1)) : 0; default: return 0; } }
// an or of values without common bits is a sum; sets swap when b holds the high bits
static bool disjointOr(E e) { for (int t = 0; t < 2; t++) { E hi = t ? e->b : e->a, lo = t ? e->a : e->b; unsigned k = tz(hi); if (k && lo->lo >= 0 && (k >= 126 || lo->hi < ((i128)1 << k))) return true; } return false; }
// mask of contiguous ones [n, h) inside w bits
static bool midMask(u128 k, unsigned w, unsigned& n, unsigned& h) { if (!k) return false; n = 0; while (!((k >> n) & 1)) n++; h = n; while (h < w && ((k >> h) & 1)) h++; return h >= 128 || (k >> h) == 0; }
static bool intOk1(E e) {
  switch (e->op) {
    case O_CONST: case O_SYM: case O_ADD: case O_SUB: case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_ITE: case O_ZEXT: case O_SEXT: case O_SDIV: case O_SREM: case O_UDIV: case O_UREM: case O_MUL: return true;
    case O_CONCAT: return true;
    case O_EXTRACT: return true;
    case O_AND: { if (e->w == 1) return true; unsigned n, h; return isC(e->b) && midMask(e->b->k, e->w, n, h); }
    case O_OR: return e->w == 1 || disjointOr(e) || tz(e->a) || tz(e->b);
    case O_XOR: return e->w == 1 || (isC(e->b) && e->b->k == maskw(e->w));
    case O_SHL: case O_LSHR: case O_ASHR: return isC(e->b) && e->b->k < e->w;
    default: return false; } }
static bool intOk(E root) {
  if (root->noInt) return root->noInt == 1; std::vector<E> st{root};
  while (!st.empty()) { E e = st.back(); if (e->noInt) { st.pop_back(); continue; } bool go = true; int8_t r = intOk1(e) ? 1 : 2; for (E x : {e->a, e->b, e->c}) if (x) { if (!x->noInt) { st.push_back(x); go = false; } else if (x->noInt == 2) r = 2; } if (!go) continue; e->noInt = r; st.pop_back(); }
  return root->noInt == 1; }
// ---- products of two unknowns, and quotients by an unknown, are represented by fresh integers constrained by linear facts.
// A query unsatisfiable with the facts alone is unsatisfiable; otherwise the model is evaluated exactly and, when it does
// not stand, the query is decided again with the exact definitions (nlDefs).
struct NL { Z3_ast a, b, r, m; bool mul; bool isOr = false; }; static std::vector<NL> nls; static std::vector<Z3_ast> nlFacts, nlDefs; static size_t nlSeen = 0;
static Z3_ast ile(Z3_ast a, Z3_ast b) { return Z3_mk_le(C, a, b); }
static Z3_ast ilt(Z3_ast a, Z3_ast b) { return Z3_mk_lt(C, a, b); }
static Z3_ast ieq(Z3_ast a, Z3_ast b) { return Z3_mk_eq(C, a, b); }
static Z3_ast conj(std::vector<Z3_ast> v) { return Z3_mk_and(C, (unsigned)v.size(), v.data()); }
static Z3_ast disj(std::vector<Z3_ast> v) { return Z3_mk_or(C, (unsigned)v.size(), v.data()); }
static Z3_ast impl(std::vector<Z3_ast> p, Z3_ast q) { for (auto& x : p) x = Z3_mk_not(C, x); p.push_back(q); return disj(p); }
static Z3_ast freshInt(const char* base) { char nm[32]; snprintf(nm, sizeof nm, "%s%zu", base, nls.size()); return Z3_mk_const(C, Z3_mk_string_symbol(C, nm), IS()); }
static Z3_ast ineg(Z3_ast t) { return Z3_mk_unary_minus(C, t); }
static bool isNum(Z3_ast t) { return Z3_get_ast_kind(C, t) == Z3_NUMERAL_AST; }
static Z3_ast nlMul(Z3_ast a, Z3_ast b) {
  if (isNum(a) || isNum(b)) return imul(a, b); if (Z3_get_ast_id(C, a) > Z3_get_ast_id(C, b)) std::swap(a, b);
  for (auto& x : nls) if (x.mul && x.a == a && x.b == b) return x.r;
  Z3_ast p = freshInt("mul"), z = inum(0), one = inum(1); nlDefs.push_back(ieq(p, imul(a, b))); auto F = [&](Z3_ast f) { nlFacts.push_back(f); };
  F(Z3_mk_iff(C, ieq(p, z), disj({ieq(a, z), ieq(b, z)})));
  for (int s = 0; s < 2; s++) { Z3_ast x = s ? b : a, y = s ? a : b; for (int sx = 0; sx < 2; sx++) for (int sy = 0; sy < 2; sy++) { Z3_ast ax = sx ? ineg(x) : x, ay = sy ? ineg(y) : y, ap = sx != sy ? ineg(p) : p; // |x|, |y|, |p|
      std::vector<Z3_ast> g = {ilt(z, ax), ilt(z, ay)}; F(impl(g, ile(ax, ap))); if (!s) F(impl(g, ile(isub(iadd(ax, ay), one), ap)));
      F(impl({ieq(ax, one), ilt(z, ay)}, ieq(ap, ay))); F(impl({ile(inum(2), ax), ilt(z, ay)}, ile(iadd(ay, ay), ap))); } }
  for (auto& o : nls) if (o.mul) for (int s = 0; s < 2; s++) for (int t = 0; t < 2; t++) { Z3_ast f = s ? b : a, x = s ? a : b, of = t ? o.b : o.a, ox = t ? o.a : o.b; if (f != of) continue; // same factor: monotone, and at least as far apart
      for (int dir = 0; dir < 2; dir++) { Z3_ast lo = dir ? x : ox, hi = dir ? ox : x, pl = dir ? p : o.r, ph = dir ? o.r : p;
        F(impl({ilt(z, f), ile(lo, hi)}, ile(isub(hi, lo), isub(ph, pl)))); F(impl({ilt(f, z), ile(lo, hi)}, ile(isub(hi, lo), isub(pl, ph)))); } }
  nls.push_back({a, b, p, nullptr, true}); return p; }
static NL& nlDiv(Z3_ast a, Z3_ast b) { // Euclidean: a = q*b + m, 0 <= m < |b|
  for (auto& x : nls) if (!x.mul && !x.isOr && x.a == a && x.b == b) return x;
  Z3_ast q = freshInt("div"), m = freshInt("mod"), z = inum(0), one = inum(1); auto F = [&](Z3_ast f) { nlFacts.push_back(f); }; Z3_ast nz = Z3_mk_not(C, ieq(b, z));
  nlDefs.push_back(impl({nz}, conj({ieq(q, Z3_mk_div(C, a, b)), ieq(m, Z3_mk_mod(C, a, b))}))); nlDefs.push_back(impl({ieq(b, z)}, conj({ieq(q, z), ieq(m, z)})));
  F(impl({ieq(b, z)}, conj({ieq(q, z), ieq(m, z)}))); F(impl({nz}, ile(z, m)));
  for (int s = 0; s < 2; s++) { Z3_ast d = s ? ineg(b) : b, v = s ? ineg(q) : q; // d > 0, v = a div d
    F(impl({ilt(z, d)}, ilt(m, d))); F(impl({ilt(z, d), ile(z, a)}, conj({ile(z, v), ile(v, a), ile(m, a)}))); F(impl({ilt(z, d), ilt(a, z)}, conj({ile(a, v), ilt(v, z)})));
    F(impl({ieq(d, one)}, conj({ieq(v, a), ieq(m, z)}))); F(impl({ilt(z, d), ile(z, a), ilt(a, d)}, conj({ieq(v, z), ieq(m, a)}))); F(impl({ile(inum(2), d), ile(z, a)}, ile(iadd(v, v), a))); F(impl({ile(inum(2), d), ilt(a, z)}, ile(isub(a, one), iadd(v, v)))); F(impl({ilt(z, d), ile(d, a)}, ilt(z, v))); F(impl({ieq(m, z), ieq(v, z), ilt(z, d)}, ieq(a, z)));
    for (auto& o : nls) if (!o.mul && !o.isOr && o.b == b) { Z3_ast ov = s ? ineg(o.r) : o.r; F(impl({ilt(z, d), ile(a, o.a)}, conj({ile(v, ov), ile(isub(ov, v), iadd(isub(o.a, a), z))}))); F(impl({ilt(z, d), ile(o.a, a)}, conj({ile(ov, v), ile(isub(v, ov), isub(a, o.a))}))); } }
  nls.push_back({a, b, q, m, false}); return nls.back(); }
static Z3_ast idiv(Z3_ast a, Z3_ast b) { return isNum(b) ? Z3_mk_div(C, a, b) : nlDiv(a, b).r; }
static Z3_ast imod(Z3_ast a, Z3_ast b) { return isNum(b) ? Z3_mk_mod(C, a, b) : nlDiv(a, b).m; }
static Z3_ast tri1(E e) {
  auto T = [&](E x) { return (Z3_ast)x->z3i; }; unsigned w = e->w, aw = e->a ? e->a->w : 0; Z3_ast a = e->a ? T(e->a) : 0, b = e->b ? T(e->b) : 0, c = e->c ? T(e->c) : 0;
  auto boolInt = [&](Z3_ast t) { return ite3(t, inum(1), inum(0)); };
  auto uns = [&](E x, Z3_ast t) -> Z3_ast { if (x->w == 1) return boolInt(t); if (x->lo >= 0) return t; if (x->hi < 0) return iadd(t, ipow(x->w)); return ite3(Z3_mk_lt(C, t, inum(0)), iadd(t, ipow(x->w)), t); };
  auto signedOf = [&](Z3_ast t, unsigned W) { return ite3(Z3_mk_ge(C, t, ipow(W - 1)), isub(t, ipow(W)), t); };           // t in [0,2^W)
  auto wrapMod = [&](Z3_ast t, unsigned W) { return isub(Z3_mk_mod(C, iadd(t, ipow(W - 1)), ipow(W)), ipow(W - 1)); };      // any t
  auto wrapOnce = [&](Z3_ast t, unsigned W, bool up, bool dn) { Z3_ast r = t; if (up) r = ite3(Z3_mk_ge(C, t, ipow(W - 1)), isub(t, ipow(W)), r); if (dn) r = ite3(Z3_mk_lt(C, t, Z3_mk_unary_minus(C, ipow(W - 1))), iadd(t, ipow(W)), r); return r; };
  auto neg = [&](Z3_ast t) { return Z3_mk_unary_minus(C, t); };
  switch (e->op) {
    case O_CONST: return w == 1 ? (e->k ? Z3_mk_true(C) : Z3_mk_false(C)) : inum(sextw(e->k, w));
    case O_SYM: { uint64_t n = (uint64_t)e->k; char nm[32]; snprintf(nm, sizeof nm, "i%llu", (unsigned long long)n); Z3_ast x = inc(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), w == 1 ? Z3_mk_bool_sort(C) : IS())); symInt[n] = x; if (w > 1) newIntSyms.push_back(n); return x; }
    case O_ADD: { Z3_ast t = iadd(a, b); i128 x, y; bool ox = __builtin_add_overflow(e->a->lo, e->b->lo, &x), oy = __builtin_add_overflow(e->a->hi, e->b->hi, &y); return wrapOnce(t, w, oy || y > wmax(w), ox || x < wmin(w)); }
    case O_SUB: { Z3_ast t = isub(a, b); i128 x, y; bool ox = __builtin_sub_overflow(e->a->lo, e->b->hi, &x), oy = __builtin_sub_overflow(e->a->hi, e->b->lo, &y); return wrapOnce(t, w, oy || y > wmax(w), ox || x < wmin(w)); }
    case O_MUL: { if (w == 1) { Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); } Z3_ast t = nlMul(a, b); i128 p[4]; bool fits = !__builtin_mul_overflow(e->a->lo, e->b->lo, &p[0]) && !__builtin_mul_overflow(e->a->lo, e->b->hi, &p[1]) && !__builtin_mul_overflow(e->a->hi, e->b->lo, &p[2]) && !__builtin_mul_overflow(e->a->hi, e->b->hi, &p[3]); if (fits) for (i128 q : p) if (q < wmin(w) || q > wmax(w)) fits = false; return fits ? t : wrapMod(t, w); }
    case O_SDIV: { Z3_ast q = e->a->lo >= 0 ? idiv(a, b) : ite3(Z3_mk_ge(C, a, inum(0)), idiv(a, b), neg(idiv(neg(a), b))); bool mayWrap = e->a->lo == wmin(w) && e->b->lo <= -1 && e->b->hi >= -1; return mayWrap ? wrapOnce(q, w, true, false) : q; }
    case O_SREM: return e->a->lo >= 0 ? imod(a, b) : ite3(Z3_mk_ge(C, a, inum(0)), imod(a, b), neg(imod(neg(a), b)));
    case O_UDIV: { Z3_ast q = idiv(uns(e->a, a), uns(e->b, b)); return e->a->lo >= 0 || e->b->lo > 1 ? q : signedOf(q, w); }
    case O_UREM: { Z3_ast q = imod(uns(e->a, a), uns(e->b, b)); return e->b->lo > 0 ? q : signedOf(q, w); }
    case O_AND: { if (w == 1) { Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); } unsigned n; if (lowMask(e->b->k, n)) { if (n >= w) return a; if (e->a->lo >= 0 && e->a->hi <= (i128)e->b->k) return a; return Z3_mk_mod(C, a, ipow(n)); } unsigned h; if (highMask(e->b->k, w, n)) return isub(a, Z3_mk_mod(C, a, ipow(n))); midMask(e->b->k, w, n, h); return isub(Z3_mk_mod(C, a, ipow(h)), Z3_mk_mod(C, a, ipow(n))); }
    case O_OR: if (w > 1) { if (disjointOr(e)) return iadd(a, b); // otherwise known only where the bits do not meet
      Z3_ast r = freshInt("or"); nls.push_back({a, b, r, nullptr, false, true}); nlFacts.push_back(ile(inum(wmin(w)), r)); nlFacts.push_back(ile(r, inum(wmax(w)))); for (int t = 0; t < 2; t++) { Z3_ast hi = t ? b : a, lo = t ? a : b; unsigned k = tz(t ? e->b : e->a); if (k) nlFacts.push_back(impl({ile(inum(0), lo), ilt(lo, ipow(k))}, ieq(r, iadd(a, b)))); nlFacts.push_back(impl({ile(inum(0), lo)}, ile(hi, r))); } nlFacts.push_back(impl({ile(inum(0), a), ile(inum(0), b)}, ile(r, iadd(a, b)))); return r; } { Z3_ast x[2] = {a, b}; return Z3_mk_or(C, 2, x); }
    case O_XOR: if (w == 1) return isTrue(e->b) ? Z3_mk_not(C, a) : Z3_mk_xor(C, a, b); return isub(inum(-1), a);
    case O_SHL: { unsigned k = (unsigned)e->b->k; Z3_ast t = imul(a, ipow(k)); i128 x, y; bool fits = k < 120 && !__builtin_mul_overflow(e->a->lo, (i128)1 << k, &x) && !__builtin_mul_overflow(e->a->hi, (i128)1 << k, &y) && x >= wmin(w) && y <= wmax(w); return fits ? t : wrapMod(t, w); }
    case O_LSHR: return Z3_mk_div(C, uns(e->a, a), ipow((unsigned)e->b->k));
    case O_ASHR: return Z3_mk_div(C, a, ipow((unsigned)e->b->k));
    case O_EQ: return aw == 1 ? Z3_mk_iff(C, a, b) : Z3_mk_eq(C, a, b);
    case O_SLT: return Z3_mk_lt(C, a, b);
    case O_SLE: return Z3_mk_le(C, a, b);
    case O_ULT: return Z3_mk_lt(C, uns(e->a, a), uns(e->b, b));
    case O_ULE: return Z3_mk_le(C, uns(e->a, a), uns(e->b, b));
    case O_ITE: return ite3(a, b, c);
    case O_CONCAT: { Z3_ast hi = e->a->w == 1 ? ite3(a, inum(-1), inum(0)) : a; return iadd(imul(hi, ipow(e->b->w)), uns(e->b, b)); }
    case O_EXTRACT: { unsigned k = (unsigned)e->k; Z3_ast t = k ? Z3_mk_div(C, a, ipow(k)) : a; if (w == 1) return Z3_mk_eq(C, Z3_mk_mod(C, t, inum(2)), inum(1)); i128 lo = e->a->lo >> k, hi = e->a->hi >> k; if (lo >= wmin(w) && hi <= wmax(w)) return t; if (lo >= 0 && hi <= (i128)maskw(w < 127 ? w : 126)) return signedOf(t, w); return wrapMod(t, w); }
    case O_ZEXT: return uns(e->a, a);
    case O_SEXT: return aw == 1 ? ite3(a, inum(-1), inum(0)) : a;
    default: fprintf(stderr, "int translation of op %d\n", e->op); exit(3);
  }
}
static Z3_ast tri(E root) {
  if (root->z3i) return (Z3_ast)root->z3i; std::vector<E> st{root};
  while (!st.empty()) { E e = st.back(); if (e->z3i) { st.pop_back(); continue; } bool go = true; for (E x : {e->a, e->b, e->c}) if (x && !x->z3i) { st.push_back(x); go = false; } if (!go) continue; e->z3i = inc(tri1(e)); st.pop_back(); }
  return (Z3_ast)root->z3i; }
static void collect(E e, std::set<uint64_t>& syms, std::set<E>& seen) { std::vector<E> st{e}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!x || seen.count(x)) continue; seen.insert(x); if (x->op == O_SYM) syms.insert((uint64_t)x->k); st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); } }

static void fillModel(Z3_model m, ModelP* out) {
  Z3_model_inc_ref(C, m); ModelP r = newModel(); r->v.assign(g_syms.size(), 0);
  for (auto& [n, a] : symAst) { if (n >= g_syms.size()) continue; Z3_ast v = 0; if (!Z3_model_eval(C, m, a, false, &v) || !v) continue; Z3_inc_ref(C, v);
    if (Z3_get_ast_kind(C, v) == Z3_NUMERAL_AST) { const char* s = Z3_get_numeral_string(C, v); u128 x = 0; for (; *s; s++) x = x * 10 + (*s - '0'); r->v[n] = x; }
    else if (g_syms[n].w == 1) r->v[n] = Z3_get_bool_value(C, v) == Z3_L_TRUE;
    Z3_dec_ref(C, v); }
  Z3_model_dec_ref(C, m); *out = r;
}

// ---------------------------------------------------------------- SMT-LIB export (fallback solvers)
std::string toSmt2(const std::vector<E>& pc, E extra, bool) {
  std::set<uint64_t> syms; std::set<E> seen; for (E e : pc) collect(e, syms, seen); if (extra) collect(extra, syms, seen);
  std::ostringstream o; bool fp = false;
  for (E e : seen) if (e->op >= O_FADD) fp = true;
  o << "(set-option :produce-models true)\n(set-logic " << (fp ? "QF_BVFP" : "QF_BV") << ")\n";
  for (auto n : syms) o << "(declare-const s" << n << (g_syms[n].w == 1 ? " Bool" : " (_ BitVec " + std::to_string(g_syms[n].w) + ")") << ")\n";
  std::unordered_map<E, std::string> nm; int ctr = 0;
  auto bits = [](u128 v, unsigned w) { std::string s = "#b"; for (int i = (int)w - 1; i >= 0; i--) s += ((v >> i) & 1) ? '1' : '0'; return s; };
  std::function<std::string(E)> emit = [&](E e) -> std::string {
    auto it = nm.find(e); if (it != nm.end()) return it->second;
    if (isC(e)) return nm[e] = e->w == 1 ? (e->k ? "true" : "false") : bits(e->k, e->w);
    if (e->op == O_SYM) return nm[e] = "s" + u128str(e->k);
    std::string a = e->a ? emit(e->a) : "", b = e->b ? emit(e->b) : "", c = e->c ? emit(e->c) : ""; std::string t; bool bl = e->w == 1; unsigned aw = e->a->w;
    auto two = [&](const char* op) { return std::string("(") + op + " " + a + " " + b + ")"; };
    auto bv1 = [&](E x, std::string s) { return x->w == 1 ? "(ite " + s + " #b1 #b0)" : s; };
    auto fp = [&](std::string s, unsigned w) { return std::string("((_ to_fp ") + (w == 32 ? "8 24) " : "11 53) ") + s + ")"; };
    switch (e->op) {
      case O_ADD: t = two("bvadd"); break; case O_SUB: t = two("bvsub"); break; case O_MUL: t = two("bvmul"); break;
      case O_UDIV: t = two("bvudiv"); break; case O_SDIV: t = two("bvsdiv"); break; case O_UREM: t = two("bvurem"); break; case O_SREM: t = two("bvsrem"); break;
      case O_AND: t = two(bl ? "and" : "bvand"); break; case O_OR: t = two(bl ? "or" : "bvor"); break; case O_XOR: t = two(bl ? "xor" : "bvxor"); break;
      case O_SHL: t = two("bvshl"); break; case O_LSHR: t = two("bvlshr"); break; case O_ASHR: t = two("bvashr"); break;
      case O_EQ: t = two("="); break; case O_ULT: t = two("bvult"); break; case O_ULE: t = two("bvule"); break; case O_SLT: t = two("bvslt"); break; case O_SLE: t = two("bvsle"); break;
      case O_ITE: t = "(ite " + a + " " + b + " " + c + ")"; break;
      case O_CONCAT: t = "(concat " + bv1(e->a, a) + " " + bv1(e->b, b) + ")"; break;
      case O_EXTRACT: t = "((_ extract " + std::to_string((unsigned)e->k + e->w - 1) + " " + u128str(e->k) + ") " + a + ")"; if (bl) t = "(= " + t + " #b1)"; break;
      case O_ZEXT: t = aw == 1 ? "(ite " + a + " " + bits(1, e->w) + " " + bits(0, e->w) + ")" : "((_ zero_extend " + std::to_string(e->w - aw) + ") " + a + ")"; break;
      case O_SEXT: t = aw == 1 ? "(ite " + a + " " + bits(maskw(e->w), e->w) + " " + bits(0, e->w) + ")" : "((_ sign_extend " + std::to_string(e->w - aw) + ") " + a + ")"; break;
      case O_FEQ: t = "(fp.eq " + fp(a, aw) + " " + fp(b, aw) + ")"; break; case O_FLT: t = "(fp.lt " + fp(a, aw) + " " + fp(b, aw) + ")"; break; case O_FLE: t = "(fp.leq " + fp(a, aw) + " " + fp(b, aw) + ")"; break;
      case O_FUNO: t = "(or (fp.isNaN " + fp(a, aw) + ") (fp.isNaN " + fp(b, aw) + "))"; break;
      default: t = "!unsupported"; break;
    }
    std::string n = "t" + std::to_string(ctr++); o << "(define-fun " << n << " () " << (bl ? "Bool" : "(_ BitVec " + std::to_string(e->w) + ")") << " " << t << ")\n"; return nm[e] = n; };
  for (auto n : syms) { unsigned w = g_syms[n].w; if (w == 1) continue; if (g_syms[n].lo > wmin(w)) o << "(assert (bvsle " << bits((u128)g_syms[n].lo & maskw(w), w) << " s" << n << "))\n"; if (g_syms[n].hi < wmax(w)) o << "(assert (bvsle s" << n << " " << bits((u128)g_syms[n].hi & maskw(w), w) << "))\n"; }
  for (E e : pc) { auto s = emit(e); o << "(assert " << s << ")\n"; }
  if (extra) { auto s = emit(extra); o << "(assert " << s << ")\n"; }
  o << "(check-sat)\n(get-value ("; for (auto n : syms) o << "s" << n << " "; if (syms.empty()) o << "true"; o << "))\n";
  return o.str();
}
static SatRes runExternal(const std::string& cmd, const std::string& file, ModelP* out) {
  std::string full = cmd + " " + file + " 2>/dev/null"; FILE* p = popen(full.c_str(), "r"); if (!p) return R_UNKNOWN;
  std::string txt; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, p)) > 0) txt.append(buf, n); pclose(p);
  if (txt.rfind("unsat", 0) == 0) return R_UNSAT;
  if (txt.rfind("sat", 0) != 0) return R_UNKNOWN;
  if (out) { ModelP m = newModel(); m->v.assign(g_syms.size(), 0); size_t q = 3;
    while ((q = txt.find("(s", q)) != std::string::npos) { q += 2; uint64_t id = strtoull(txt.c_str() + q, 0, 10); while (q < txt.size() && txt[q] != ' ') q++; q++; u128 v = 0;
      if (txt.compare(q, 4, "true") == 0) v = 1; else if (txt[q] == '#') { if (txt[q + 1] == 'b') for (size_t r = q + 2; txt[r] == '0' || txt[r] == '1'; r++) v = v * 2 + (txt[r] - '0'); else for (size_t r = q + 2; isxdigit((unsigned char)txt[r]); r++) v = v * 16 + (isdigit((unsigned char)txt[r]) ? txt[r] - '0' : (txt[r] | 32) - 'a' + 10); }
      if (id < m->v.size()) m->v[id] = v; }
    for (size_t n = 0; n < g_syms.size(); n++) { i128 v = sextw(m->v[n], g_syms[n].w); if (g_syms[n].w > 1 && (v < g_syms[n].lo || v > g_syms[n].hi)) m->v[n] = (u128)g_syms[n].lo & maskw(g_syms[n].w); }
    *out = m; }
  return R_SAT;
}
static SatRes external(const std::vector<E>& pc, E extra, ModelP* out) {
  g_stats.fallback++;
  static int ctr = 0; std::string f = g_sopts.tmp + "/q" + std::to_string(getpid()) + "_" + std::to_string(ctr++) + ".smt2"; FILE* fp = fopen(f.c_str(), "w"); if (!fp) return R_UNKNOWN; std::string t = toSmt2(pc, extra); fwrite(t.data(), 1, t.size(), fp); fclose(fp);
  SatRes r = R_UNKNOWN;
  if (t.find("!unsupported") == std::string::npos) {
    std::string T = std::to_string(g_sopts.fallback_s);
    const char* cmds[] = {"cvc5 -q --solve-bv-as-int=sum --nl-ext-tplanes", "cvc5 -q --bitblast=eager --bv-sat-solver=cadical", "z3"};
    for (auto c : cmds) { r = runExternal("timeout " + T + " " + c, f, out); if (r == R_SAT && out) { bool good = !extra || evalM(extra, **out); for (E e : pc) if (!evalM(e, **out)) good = false; if (!good) { r = R_UNKNOWN; continue; } } if (r != R_UNKNOWN) break; }
  }
  unlink(f.c_str()); return r;
}


struct Inc { Z3_solver s = nullptr; std::vector<E> asserted; bool ints; bool exact = true; size_t nSyms = 0, nFacts = 0, nDefs = 0; };
static Inc SI, SX, SB, SF;  // integers (products and quotients of unknowns abstracted), integers (exact), bit vectors
static SatRes incCheck(Inc& I, const std::vector<E>& pc, E extra, ModelP* out) {
  auto T = [&](E e) { return I.ints ? tri(e) : tr(e); };
  if (I.ints) { // symbol ranges live at the base level
    for (E e : pc) tri(e); if (extra) tri(extra);
    if (I.nSyms < newIntSyms.size() || I.nFacts < nlFacts.size() || (I.exact && I.nDefs < nlDefs.size())) { if (!I.asserted.empty()) Z3_solver_pop(C, I.s, (unsigned)I.asserted.size()); I.asserted.clear();
      for (; I.nSyms < newIntSyms.size(); I.nSyms++) { auto n = newIntSyms[I.nSyms]; Z3_solver_assert(C, I.s, Z3_mk_le(C, inum(g_syms[n].lo), symInt[n])); Z3_solver_assert(C, I.s, Z3_mk_le(C, symInt[n], inum(g_syms[n].hi))); }
      for (; I.nFacts < nlFacts.size(); I.nFacts++) Z3_solver_assert(C, I.s, nlFacts[I.nFacts]); if (I.exact) for (; I.nDefs < nlDefs.size(); I.nDefs++) Z3_solver_assert(C, I.s, nlDefs[I.nDefs]); } }
  auto& A = I.asserted; size_t cp = 0; while (cp < A.size() && cp < pc.size() && A[cp] == pc[cp]) cp++;
  if (cp < A.size()) { Z3_solver_pop(C, I.s, (unsigned)(A.size() - cp)); A.resize(cp); }
  for (size_t i = cp; i < pc.size(); i++) { Z3_solver_push(C, I.s); Z3_solver_assert(C, I.s, T(pc[i])); A.push_back(pc[i]); }
  if (extra) { Z3_solver_push(C, I.s); Z3_solver_assert(C, I.s, T(extra)); }
  if (!I.ints) { // ranges of symbols are assumptions of every query
    std::set<uint64_t> syms; std::set<E> seen; for (E e : pc) collect(e, syms, seen); if (extra) collect(extra, syms, seen);
    if (!extra) Z3_solver_push(C, I.s);
    for (auto n : syms) { unsigned w = g_syms[n].w; if (w == 1) continue; E s = mkSym(w, n); if (g_syms[n].lo > wmin(w)) Z3_solver_assert(C, I.s, Z3_mk_bvsle(C, numeral((u128)g_syms[n].lo & maskw(w), w), tr(s))); if (g_syms[n].hi < wmax(w)) Z3_solver_assert(C, I.s, Z3_mk_bvsle(C, tr(s), numeral((u128)g_syms[n].hi & maskw(w), w))); } }
  SatRes r = R_UNKNOWN; std::vector<std::pair<Z3_ast, i128>> vals;
  auto stands = [&]() { if (extra && !evalM(extra, **out)) return false; for (E e : pc) if (!evalM(e, **out)) return false; return true; };
  auto solve = [&]() {
  Z3_lbool l = Z3_solver_check(C, I.s); r = l == Z3_L_TRUE ? R_SAT : l == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (r == R_SAT && out) {
    Z3_model m = Z3_solver_get_model(C, I.s); if (!m) r = R_UNKNOWN;
    else if (!I.ints) { fillModel(m, out); for (size_t n = 0; n < g_syms.size(); n++) { i128 v = sextw((*out)->v[n], g_syms[n].w); if (g_syms[n].w > 1 && (v < g_syms[n].lo || v > g_syms[n].hi)) (*out)->v[n] = (u128)g_syms[n].lo & maskw(g_syms[n].w); } }
    else { Z3_model_inc_ref(C, m); ModelP q = newModel(); q->v.assign(g_syms.size(), 0);
      for (size_t n = 0; n < g_syms.size(); n++) if (g_syms[n].w > 1 && (g_syms[n].lo > 0 || g_syms[n].hi < 0)) q->v[n] = (u128)g_syms[n].lo & maskw(g_syms[n].w);
      for (auto& [n, t] : symInt) { if (n >= g_syms.size()) continue; Z3_ast v = 0; if (!Z3_model_eval(C, m, t, false, &v) || !v) continue; Z3_inc_ref(C, v); unsigned w = g_syms[n].w;
        if (w == 1) q->v[n] = Z3_get_bool_value(C, v) == Z3_L_TRUE;
        else if (Z3_get_ast_kind(C, v) == Z3_NUMERAL_AST) { const char* s = Z3_get_numeral_string(C, v); bool ng = *s == '-'; if (ng) s++; u128 x = 0; for (; *s; s++) x = x * 10 + (*s - '0'); q->v[n] = (ng ? 0 - x : x) & maskw(w); }
        Z3_dec_ref(C, v); }
      if (I.ints && !I.exact && vals.empty()) for (auto& x : nls) if (!x.isOr) for (Z3_ast t : {x.a, x.b}) { Z3_ast v = 0; if (!Z3_model_eval(C, m, t, true, &v) || !v) continue; Z3_inc_ref(C, v); if (isNum(v)) { const char* s = Z3_get_numeral_string(C, v); bool ng = *s == '-'; if (ng) s++; i128 k = 0; size_t d = strlen(s); if (d < 36) { for (; *s; s++) k = k * 10 + (*s - '0'); vals.push_back({t, ng ? -k : k}); } } Z3_dec_ref(C, v); }
      Z3_model_dec_ref(C, m); *out = q; } } };
  solve();
  if (I.ints && !I.exact && r == R_SAT && !nls.empty() && !stands()) { // the model of the abstraction does not stand: look for one with the shared factors fixed, which makes the query linear
    std::map<Z3_ast, int> uses; for (auto& x : nls) if (!x.isOr) { uses[x.b]++; if (x.mul) uses[x.a]++; }
    auto vs = vals; bool found = false; ModelP keepM = *out;
    for (int att = 0; att < 36 && !found && !uses.empty(); att++) { static const i128 KV[] = {7, -7, 1, -1, 2, -2, 3, -3, 0, 49, -49, 1000, -1000, (i128)1 << 31, -((i128)1 << 31), (i128)1 << 62, -((i128)1 << 62)};
      Z3_solver_push(C, I.s); std::set<Z3_ast> fixedT;
      for (auto& x : nls) { if (x.isOr) continue; Z3_ast t = x.b, o = x.a; if (x.mul && uses[x.a] > uses[x.b]) std::swap(t, o); if (x.mul && uses[x.a] == uses[x.b] && (att & 1)) std::swap(t, o); i128 v = att > 1 ? KV[att / 2 - 1] : 1; if (att < 2) for (auto& p : vs) if (p.first == t) v = p.second;
        Z3_solver_assert(C, I.s, impl({ieq(t, inum(v))}, x.mul ? ieq(x.r, imul(inum(v), o)) : v ? conj({ieq(x.r, Z3_mk_div(C, x.a, inum(v))), ieq(x.m, Z3_mk_mod(C, x.a, inum(v)))}) : ieq(x.r, inum(0)))); if (fixedT.insert(t).second) Z3_solver_assert(C, I.s, ieq(t, inum(v))); }
      solve(); found = r == R_SAT && stands(); Z3_solver_pop(C, I.s, 1); }
    if (!found) { r = R_SAT; *out = keepM; } }
  if (extra || !I.ints) Z3_solver_pop(C, I.s, 1);
  if (r == R_SAT && out) { if (!stands()) { g_stats.badmodel++; r = R_UNKNOWN; } }
  return r; }
SatRes solverCheck(const std::vector<E>& pc, E extra, ModelP* out) {
  auto t0 = std::chrono::steady_clock::now();
  g_stats.queries++; SatRes r = R_UNKNOWN; bool ints = g_sopts.mode != "bv" && (!extra || intOk(extra)); if (ints) for (E e : pc) if (!intOk(e)) { ints = false; break; }
  ModelP tmp; if (!out) out = &tmp;
  if (ints) { if (!SI.s) { SI.ints = true; SI.exact = false; SI.s = mkSolver(true); } r = incCheck(SI, pc, extra, out); if (r == R_UNKNOWN && !nls.empty()) { g_stats.nlExact++; if (!SX.s) { SX.ints = true; SX.s = mkSolver(true); } r = incCheck(SX, pc, extra, out); } if (r == R_UNKNOWN) g_stats.intUnknown++; }
  else g_stats.bvq++;
  static bool dbg = getenv("SYMX_DEBUG"); if (dbg && r == R_UNKNOWN) { fprintf(stderr, "ints=%d intOk:", ints); for (E e : pc) fprintf(stderr, "%d", intOk(e)); fprintf(stderr, "\n"); for (E e : pc) fprintf(stderr, "  pc %s\n", exprStr(e, 12).c_str()); if (extra) fprintf(stderr, "  extra(%d) %s\n", intOk(extra), exprStr(extra, 12).c_str()); }
  bool fps = false; if (r == R_UNKNOWN) { std::set<uint64_t> syms; std::set<E> seen; for (E e : pc) collect(e, syms, seen); if (extra) collect(extra, syms, seen); for (E e : seen) fps |= e->op >= O_FADD; }
  if (r == R_UNKNOWN && fps) { if (!SF.s) { SF.ints = false; SF.s = mkSolver(false, true); } r = incCheck(SF, pc, extra, out); }
  else if (r == R_UNKNOWN) { if (!SB.s) { SB.ints = false; SB.s = mkSolver(false); } r = incCheck(SB, pc, extra, out); }
  if (r == R_UNKNOWN && g_sopts.fallback_s) r = external(pc, extra, out);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_stats.seconds += dt; if (dt > g_stats.maxq) g_stats.maxq = dt;
  if (r == R_SAT) g_stats.sat++; else if (r == R_UNSAT) g_stats.unsat++; else g_stats.unknown++;
  return r;
}
