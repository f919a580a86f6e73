#include "expr.h"
#include <unordered_set>
#include <deque>
#include <cmath>
#include <cstring>
#include <cfenv>

std::vector<SymInfo> g_syms;
static std::deque<Expr> arena;
struct H { size_t operator()(E e) const {
  uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911ull;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix((uint64_t)e->a >> 4); mix((uint64_t)e->b >> 4); mix((uint64_t)e->c >> 4); mix((uint64_t)e->k); mix((uint64_t)(e->k >> 64));
  return h ^ (h >> 29); } };
struct Q { bool operator()(E x, E y) const { return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k; } };
static std::unordered_set<E, H, Q> table;

// ------------------------------------------------------------------ interval analysis (signed view; w==1 uses 0..1)
static void rangeOf(Expr& t) {
  unsigned w = t.w; if (w == 1) { t.lo = 0; t.hi = 1; if (t.op == O_CONST) t.lo = t.hi = (i128)t.k; return; }
  i128 mn = wmin(w), mx = wmax(w); t.lo = mn; t.hi = mx; auto fit = [&](i128 lo, i128 hi) { if (lo >= mn && hi <= mx) { t.lo = lo; t.hi = hi; } };
  E a = t.a, b = t.b, c = t.c; i128 x, y;
  auto pw = [](unsigned k) { return (i128)1 << k; };
  switch (t.op) {
    case O_CONST: t.lo = t.hi = sextw(t.k, w); break;
    case O_SYM: t.lo = g_syms[(size_t)t.k].lo; t.hi = g_syms[(size_t)t.k].hi; break;
    case O_ADD: if (!__builtin_add_overflow(a->lo, b->lo, &x) && !__builtin_add_overflow(a->hi, b->hi, &y)) fit(x, y); break;
    case O_SUB: if (!__builtin_sub_overflow(a->lo, b->hi, &x) && !__builtin_sub_overflow(a->hi, b->lo, &y)) fit(x, y); break;
    case O_MUL: { i128 p[4]; if (!__builtin_mul_overflow(a->lo, b->lo, &p[0]) && !__builtin_mul_overflow(a->lo, b->hi, &p[1]) && !__builtin_mul_overflow(a->hi, b->lo, &p[2]) && !__builtin_mul_overflow(a->hi, b->hi, &p[3])) { x = y = p[0]; for (i128 q : p) { if (q < x) x = q; if (q > y) y = q; } fit(x, y); } break; }
    case O_SDIV: if (b->lo == b->hi && b->lo != 0 && b->lo != -1) { x = a->lo / b->lo; y = a->hi / b->lo; if (x > y) std::swap(x, y); fit(x, y); } else if (b->lo > 0) { fit(a->lo < 0 ? a->lo : 0, a->hi > 0 ? a->hi : 0); } break;
    case O_SREM: if (b->lo > 0) { i128 m = b->hi - 1; i128 l = a->lo < 0 ? (a->lo < -m ? -m : a->lo) : 0, h = a->hi > 0 ? (a->hi > m ? m : a->hi) : 0; fit(l, h); } break;
    case O_UDIV: if (a->lo >= 0 && b->lo > 0) fit(a->lo / b->hi, a->hi / b->lo); else if (b->lo == b->hi && b->lo > 1) { fit(0, (i128)(maskw(w) / (u128)b->lo)); } break;
    case O_UREM: if (b->lo > 0) { i128 h = b->hi - 1; if (a->lo >= 0 && a->hi < h) h = a->hi; fit(0, h); } break;
    case O_AND: if (a->lo >= 0 && b->lo >= 0) fit(0, a->hi < b->hi ? a->hi : b->hi); else if (a->lo >= 0) fit(0, a->hi); else if (b->lo >= 0) fit(0, b->hi); break;
    case O_OR: case O_XOR: if (a->lo >= 0 && b->lo >= 0) { u128 m = (u128)(a->hi | b->hi); unsigned n = 0; while (n < 127 && (m >> n)) n++; fit(0, pw(n) - 1); } break;
    case O_SHL: if (isC(b) && b->k < w && b->k < 120) { if (!__builtin_mul_overflow(a->lo, pw((unsigned)b->k), &x) && !__builtin_mul_overflow(a->hi, pw((unsigned)b->k), &y)) fit(x, y); } break;
    case O_ASHR: if (isC(b) && b->k < w) fit(a->lo >> (unsigned)b->k, a->hi >> (unsigned)b->k); break;
    case O_LSHR: if (isC(b) && b->k < w && b->k > 0) { if (a->lo >= 0) fit(a->lo >> (unsigned)b->k, a->hi >> (unsigned)b->k); else fit(0, (i128)(maskw(w) >> (unsigned)b->k)); } else if (a->lo >= 0) fit(0, a->hi); break;
    case O_ITE: fit(b->lo < c->lo ? b->lo : c->lo, b->hi > c->hi ? b->hi : c->hi); break;
    case O_ZEXT: if (a->w == 1) fit(0, 1); else if (a->lo >= 0) fit(a->lo, a->hi); else fit(0, (i128)maskw(a->w)); break;
    case O_SEXT: if (a->w == 1) fit(-1, 0); else fit(a->lo, a->hi); break;
    case O_EXTRACT: if (t.k == 0) fit(a->lo, a->hi); break;
    case O_CONCAT: if (a->w > 1 && b->w < 120 && a->w + b->w <= 128) { i128 bl = 0, bh = (i128)maskw(b->w); if (b->w > 1 && b->lo >= 0) { bl = b->lo; bh = b->hi; } if (!__builtin_mul_overflow(a->lo, pw(b->w), &x) && !__builtin_mul_overflow(a->hi, pw(b->w), &y)) fit(x + bl, y + bh); } break;
    default: break;
  }
}

static E intern(Op op, unsigned w, E a, E b, E c, u128 k) {
  Expr t; memset((void*)&t, 0, sizeof t); t.op = op; t.w = (uint16_t)w; t.a = a; t.b = b; t.c = c; t.k = k;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.id = (uint32_t)arena.size() + 1;
  rangeOf(t); uint16_t n = 0; for (E x : {a, b, c}) if (x && x->ites > n) n = x->ites; t.ites = n + (op == O_ITE && n < 65000);
  arena.push_back(t);
  E r = &arena.back();
  table.insert(r);
  return r;
}
size_t exprCount() { return arena.size(); }
E mkConst(u128 v, unsigned w) { return intern(O_CONST, w, 0, 0, 0, v & maskw(w)); }
E mkSym(unsigned w, uint64_t num) { return intern(O_SYM, w, 0, 0, 0, num); }

static double asD(u128 v, unsigned w) { if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; } uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t x; memcpy(&x, &d, 8); return x; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }

u128 foldOp(Op op, unsigned w, unsigned aw, u128 a, u128 b, u128 c, u128 k, bool& ok) {
  ok = true; u128 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    // SMT-LIB semantics for division by zero (the executor checks divisors itself)
    case O_UDIV: return b == 0 ? m : (a / b) & m;
    case O_UREM: return b == 0 ? a : (a % b) & m;
    case O_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return (x < 0 ? 1 : m) & m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case O_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case O_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case O_ASHR: { i128 x = sextw(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sextw(a, aw) < sextw(b, aw);
    case O_SLE: return sextw(a, aw) <= sextw(b, aw);
    case O_ITE: return a ? b : c;
    case O_EXTRACT: return (a >> (unsigned)k) & m;
    case O_ZEXT: return a;
    case O_SEXT: return (u128)sextw(a, aw) & m;
    case O_FADD: if (w == 32) return fromD(asF(a) + asF(b), 32); return fromD(asD(a, w) + asD(b, w), w);
    case O_FSUB: if (w == 32) return fromD(asF(a) - asF(b), 32); return fromD(asD(a, w) - asD(b, w), w);
    case O_FMUL: if (w == 32) return fromD(asF(a) * asF(b), 32); return fromD(asD(a, w) * asD(b, w), w);
    case O_FDIV: if (w == 32) return fromD(asF(a) / asF(b), 32); return fromD(asD(a, w) / asD(b, w), w);
    case O_FREM: return fromD(fmod(asD(a, w), asD(b, w)), w);
    case O_FEQ: return asD(a, aw) == asD(b, aw);
    case O_FLT: return asD(a, aw) < asD(b, aw);
    case O_FLE: return asD(a, aw) <= asD(b, aw);
    case O_FUNO: return std::isnan(asD(a, aw)) || std::isnan(asD(b, aw));
    case O_FPEXT: return fromD(asF(a), 64);
    case O_FPTRUNC: return fromD(asD(a, 64), 32);
    case O_SITOFP: if (w == 32) { float f = (float)sextw(a, aw); uint32_t x; memcpy(&x, &f, 4); return x; } return fromD((double)sextw(a, aw), 64);
    case O_UITOFP: if (w == 32) { float f = (float)a; uint32_t x; memcpy(&x, &f, 4); return x; } return fromD((double)a, 64);
    case O_FPTOSI: { double d = trunc(asD(a, aw)); if (!(d >= -ldexp(1.0, w - 1) && d < ldexp(1.0, w - 1))) return 0; return (u128)(i128)d & m; }
    case O_FPTOUI: { double d = trunc(asD(a, aw)); if (!(d > -1.0 && d < ldexp(1.0, w))) return 0; return (u128)d & m; }
    case O_FROUND: { double d = asD(a, aw); switch ((int)k) { case 0: d = nearbyint(d); break; case 1: d = round(d); break; case 2: d = ceil(d); break; case 3: d = floor(d); break; default: d = trunc(d); } return fromD(d, aw); }
    default: ok = false; return 0;
  }
}

E mkNot(E a) {
  if (isC(a)) return mkConst(a->k ^ 1, 1);
  if (a->op == O_XOR && a->w == 1 && isC(a->b)) return a->a; // not(not x)
  switch (a->op) {
    case O_SLT: return mk(O_SLE, 1, a->b, a->a);
    case O_SLE: return mk(O_SLT, 1, a->b, a->a);
    case O_ULT: return mk(O_ULE, 1, a->b, a->a);
    case O_ULE: return mk(O_ULT, 1, a->b, a->a);
    case O_EQ: if (a->a->w == 1) return mk(O_XOR, 1, a->a, a->b); break;
    default: break;
  }
  return intern(O_XOR, 1, a, mkConst(1, 1), 0, 0);
}

static bool commut(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FADD || op == O_FMUL || op == O_FEQ; }
// an ITE tree whose leaves are all constants (bounded depth)
static bool iteConst(E e, int d = 4) { if (isC(e)) return true; if (d == 0 || e->op != O_ITE) return false; return iteConst(e->b, d - 1) && iteConst(e->c, d - 1); }

// floating point values as fractions: e = n / 2^q where n is an integer expression of 64 bits (the sign of a zero is lost).
// Rounding is exact: none while the integer has at most P bits, to the nearest multiple (ties to even) when its range is inside one binade
static E roundFp(E n, int P) {
  const i128 lim = (i128)1 << P; if (n->lo >= -lim && n->hi <= lim) return n; if (n->hi < 0) { E r = roundFp(mk(O_SUB, 64, mkConst(0, 64), n), P); return r ? mk(O_SUB, 64, mkConst(0, 64), r) : nullptr; }
  if (n->lo <= 0 || n->hi > ((i128)1 << 62)) return nullptr; int e = 62; while (((i128)1 << e) > n->lo) e--; if (n->hi > ((i128)2 << e)) return nullptr; int k = e + 1 - P; if (k <= 0) return n;
  auto K = [](u128 v) { return mkConst(v, 64); }; E d = mk(O_SDIV, 64, n, K((u128)1 << k)), r = mk(O_SREM, 64, n, K((u128)1 << k)), h = K((u128)1 << (k - 1));
  E up = mk(O_OR, 1, mk(O_SLT, 1, h, r), mk(O_AND, 1, mk(O_EQ, 1, r, h), mk(O_EQ, 1, mk(O_SREM, 64, d, K(2)), K(1))));
  return mk(O_MUL, 64, mk(O_ADD, 64, d, mk(O_ITE, 64, up, K(1), K(0))), K((u128)1 << k)); }
static bool exactFp(E e, E& n, int& q) {
  const int P = e->w == 32 ? 24 : 53; const i128 lim = (i128)1 << P;
  if (isC(e)) { double d = asD(e->k, e->w); if (!std::isfinite(d)) return false; q = 0; while (q < 40 && d != std::floor(d)) { d *= 2; q++; } if (d != std::floor(d) || std::fabs(d) > 4e18) return false; n = mkConst((u128)(i128)d & maskw(64), 64); return true; }
  if (e->op == O_SITOFP) { if (e->a->w > 64 || e->a->w < 2) return false; n = roundFp(e->a->w < 64 ? mk(O_SEXT, 64, e->a) : e->a, P); q = 0; return n != nullptr; }
  if (e->op == O_FPEXT) return exactFp(e->a, n, q);
  if (e->op == O_UITOFP) { if (e->a->w > 64 || (e->a->w == 64 && e->a->lo < 0)) return false; n = roundFp(e->a->w < 64 ? mk(O_ZEXT, 64, e->a) : e->a, P); q = 0; return n != nullptr; }
  if (e->op == O_FPTRUNC) { if (!exactFp(e->a, n, q)) return false; n = roundFp(n, P); return n != nullptr; }
  if (e->op == O_XOR && isC(e->b) && e->b->k == (u128)1 << (e->w - 1)) { if (!exactFp(e->a, n, q)) return false; n = mk(O_SUB, 64, mkConst(0, 64), n); return true; }
  if (e->op == O_FROUND) { if (!exactFp(e->a, n, q)) return false; if (q == 0) return true; if (q > 60 || e->k == 0) return false;
    auto K = [](u128 v) { return mkConst(v, 64); }; E d = mk(O_SDIV, 64, n, K((u128)1 << q)), r = mk(O_SREM, 64, n, K((u128)1 << q)), up = mk(O_ADD, 64, d, K(1)), dn = mk(O_ADD, 64, d, K(maskw(64))); i128 h = (i128)1 << (q - 1);
    switch ((int)e->k) { case 3: n = mk(O_ITE, 64, mk(O_SLT, 1, r, K(0)), dn, d); break; case 2: n = mk(O_ITE, 64, mk(O_SLT, 1, K(0), r), up, d); break; case 4: n = d; break;
      default: n = mk(O_ITE, 64, mk(O_SLE, 1, K(h), r), up, mk(O_ITE, 64, mk(O_SLE, 1, r, K((u128)-h & maskw(64))), dn, d)); }
    q = 0; return true; }
  if (e->op == O_FADD || e->op == O_FSUB) { E m; int p; if (!exactFp(e->a, n, q) || !exactFp(e->b, m, p)) return false;
    auto up = [](E& x, int by) { if (by == 0) return true; if (by > 60) return false; i128 f = (i128)1 << by, L = (i128)1 << 61; if (x->lo < 0 ? -x->lo > L / f : false) return false; if (x->hi > L / f) return false; x = mk(O_MUL, 64, x, mkConst((u128)f, 64)); return true; };
    if (q < p) { if (!up(n, p - q)) return false; q = p; } else if (!up(m, q - p)) return false;
    if (n->lo < -((i128)1 << 61) || n->hi > (i128)1 << 61 || m->lo < -((i128)1 << 61) || m->hi > (i128)1 << 61) return false;
    n = roundFp(mk(e->op == O_FADD ? O_ADD : O_SUB, 64, n, m), P); return n != nullptr; }
  if (e->op == O_FMUL) { E x = e->a, f = e->b; if (isC(x)) std::swap(x, f); if (!isC(f)) return false; double d = asD(f->k, f->w); if (!std::isfinite(d)) return false;
    if (!exactFp(x, n, q)) return false; if (d == 0) { n = mkConst(0, 64); q = 0; return true; }
    int ex; double m = std::frexp(d, &ex); i128 im = (i128)std::ldexp(m, 53); ex -= 53; while (!(im & 1)) { im /= 2; ex++; } q -= ex; while (q < 0) { if (im > lim || im < -lim) return false; im *= 2; q++; }
    if (im > lim || im < -lim || q > (e->w == 32 ? 100 : 900)) return false; i128 z = std::max(std::max(n->lo * im, n->lo * -im), std::max(n->hi * im, n->hi * -im)); if (z > ((i128)1 << 62)) return false;
    n = roundFp(mk(O_MUL, 64, n, mkConst((u128)im & maskw(64), 64)), P); return n != nullptr; }
  return false; }
static E fpSimplify(Op op, unsigned w, E a, E b) {
  E n, m; int q, p;
  if (a->op == O_ITE && (!b || isC(b))) return mk(O_ITE, w, a->a, mk(op, w, a->b, b), mk(op, w, a->c, b));
  if (b && b->op == O_ITE && isC(a)) return mk(O_ITE, w, b->a, mk(op, w, a, b->b), mk(op, w, a, b->c));
  if (op == O_FPTOSI) { if (w != 64 || !exactFp(a, n, q)) return nullptr; if (q == 0) return n; if (q > 60) return mkConst(0, 64); return mk(O_SDIV, 64, n, mkConst((u128)1 << q, 64)); }
  bool ka = isC(a), kb = isC(b); if (op == O_FUNO) { if (ka && std::isnan(asD(a->k, a->w))) return mkConst(1, 1); if (kb && std::isnan(asD(b->k, b->w))) return mkConst(1, 1); if ((ka || exactFp(a, n, q)) && (kb || exactFp(b, m, p))) return mkConst(0, 1); return nullptr; }
  if (ka == kb || !exactFp(ka ? b : a, n, q)) return nullptr; double d = asD((ka ? a : b)->k, a->w); if (std::isnan(d)) return mkConst(0, 1);
  double t = std::ldexp(d, q); const double big = 4611686018427387904.0; bool hi = t > big, lo = t < -big; // |n| <= 2^62
  auto K = [&](double v) { return mkConst((u128)(i128)v & maskw(64), 64); };
  switch (op) {
    case O_FLT: if (kb) return hi ? mkConst(1, 1) : lo ? mkConst(0, 1) : mk(O_SLT, 1, n, K(std::ceil(t))); return hi ? mkConst(0, 1) : lo ? mkConst(1, 1) : mk(O_SLT, 1, K(std::floor(t)), n);
    case O_FLE: if (kb) return hi ? mkConst(1, 1) : lo ? mkConst(0, 1) : mk(O_SLE, 1, n, K(std::floor(t))); return hi ? mkConst(0, 1) : lo ? mkConst(1, 1) : mk(O_SLE, 1, K(std::ceil(t)), n);
    case O_FEQ: if (hi || lo || t != std::floor(t)) return mkConst(0, 1); return mk(O_EQ, 1, n, K(t));
    default: return nullptr; } }

E mk(Op op, unsigned w, E a, E b, E c, u128 k) {
  // constant folding
  if (isC(a) && (!b || isC(b)) && (!c || isC(c)) && op != O_CONCAT) {
    bool ok; u128 v = foldOp(op, w, a->w, a->k, b ? b->k : 0, c ? c->k : 0, k, ok);
    if (ok) return mkConst(v, w);
  }
  if (op == O_CONCAT && isC(a) && isC(b)) return mkConst((a->k << b->w) | b->k, w);
  if (b && commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); if (isC(a) && !isC(b)) std::swap(a, b); }
  if (op == O_FPTOSI || op == O_FLT || op == O_FLE || op == O_FEQ || op == O_FUNO) if (E r = fpSimplify(op, w, a, b)) return r;
  // decisions by value ranges
  if (op >= O_EQ && op <= O_SLE && a->w > 1) {
    bool nn = a->lo >= 0 && b->lo >= 0;
    if (op == O_EQ) { if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1); }
    else {
      Op so = op; if (nn && op == O_ULT) so = O_SLT; if (nn && op == O_ULE) so = O_SLE;
      if (so == O_SLT) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
      if (so == O_SLE) { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); }
      op = so;
      // x <u k with x of either sign stays unsigned
    }
  }
  switch (op) {
    case O_ADD:
      if (isC(b)) {
        if (b->k == 0) return a;
        if (a->op == O_ADD && isC(a->b)) return mk(O_ADD, w, a->a, mkConst(a->b->k + b->k, w));
        if (a->op == O_ITE && iteConst(a, 2)) return mk(O_ITE, w, a->a, mk(O_ADD, w, a->b, b), mk(O_ADD, w, a->c, b));
      }
      if (a->op == O_SUB && a->b == b) return a->a;
      if (b->op == O_SUB && b->b == a) return b->a;
      if (w == 1) return mk(O_XOR, 1, a, b);
      break;
    case O_SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mk(O_ADD, w, a, mkConst(0 - b->k, w));
      if (isC(a) && b->op == O_SUB && isC(b->a) ) return mk(O_ADD, w, b->b, mkConst(a->k - b->a->k, w)); // k-(k2-x)
      if (a->op == O_ADD && a->b == b) return a->a;
      if (a->op == O_ADD && a->a == b) return a->b;
      if (w == 1) return mk(O_XOR, 1, a, b);
      break;
    case O_MUL:
      if (isC(b)) {
        if (b->k == 0) return b;
        if (b->k == 1) return a;
        u128 v = b->k; if ((v & (v - 1)) == 0) { unsigned s = 0; while (!((v >> s) & 1)) s++; return mk(O_SHL, w, a, mkConst(s, w)); }
      }
      break;
    case O_UDIV:
      if (isC(b)) { if (b->k == 1) return a; u128 v = b->k; if (v && (v & (v - 1)) == 0) { unsigned s = 0; while (!((v >> s) & 1)) s++; return mk(O_LSHR, w, a, mkConst(s, w)); } }
      break;
    case O_UREM:
      if (isC(b)) { if (b->k == 1) return mkConst(0, w); u128 v = b->k; if (v && (v & (v - 1)) == 0) return mk(O_AND, w, a, mkConst(v - 1, w)); }
      break;
    case O_SDIV: if (isC(b) && b->k == 1) return a; break;
    case O_AND:
      if (w > 1 && isC(b) && a->lo >= 0 && (b->k & (b->k + 1)) == 0 && (u128)a->hi <= b->k) return a; // mask that keeps everything
      if (a == b) return a;
      if (isC(b)) {
        if (b->k == 0) return b;
        if (b->k == maskw(w)) return a;
        if (a->op == O_AND && isC(a->b)) return mk(O_AND, w, a->a, mkConst(a->b->k & b->k, w));
        if (w > 1 && a->op == O_ZEXT) {
          if ((b->k & maskw(a->a->w)) == maskw(a->a->w)) return a;
          return mk(O_ZEXT, w, mk(O_AND, a->a->w, a->a, mkConst(b->k, a->a->w)));
        }
        if (a->op == O_ITE && iteConst(a, 2)) return mk(O_ITE, w, a->a, mk(O_AND, w, a->b, b), mk(O_AND, w, a->c, b));
        // low bits of a sum: a term shifted out of the mask does not matter
        if (w > 1 && (b->k & (b->k + 1)) == 0) { unsigned n = 0; while (n < w && ((b->k >> n) & 1)) n++; auto high = [&](E x) { return x->op == O_SHL && isC(x->b) && x->b->k >= n && x->b->k < w; };
          if (high(a)) return mkConst(0, w); if (a->op == O_ADD) { if (high(a->a)) return mk(O_AND, w, a->b, b); if (high(a->b)) return mk(O_AND, w, a->a, b); } }
      }
      if (w == 1) { if (mkNot(a) == b) return mkConst(0, 1);
        if (b->op == O_AND && (b->a == a || b->b == a)) return b;
        if (a->op == O_AND && (a->a == b || a->b == b)) return a; }
      break;
    case O_OR:
      if (a == b) return a;
      if (isC(b)) {
        if (b->k == 0) return a; if (b->k == maskw(w)) return b;
        if (a->op == O_ITE && iteConst(a, 2)) return mk(O_ITE, w, a->a, mk(O_OR, w, a->b, b), mk(O_OR, w, a->c, b));
      }
      if (w == 1) { if (mkNot(a) == b) return mkConst(1, 1);
        if (b->op == O_OR && (b->a == a || b->b == a)) return b;
        if (a->op == O_OR && (a->a == b || a->b == b)) return a; }
      else {
        // or of disjoint pieces built by shifting: (zext lo) | (x << lo.w) -> concat
        E x = a, y = b;
        for (int t = 0; t < 2; t++, std::swap(x, y))
          if (x->op == O_ZEXT && y->op == O_SHL && isC(y->b) && y->b->k == x->a->w && y->a->op == O_ZEXT && y->a->a->w + x->a->w <= w) {
            E cc = mk(O_CONCAT, y->a->a->w + x->a->w, y->a->a, x->a);
            return cc->w == w ? cc : mk(O_ZEXT, w, cc);
          }
      }
      break;
    case O_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->k == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->op == O_XOR && isC(a->b)) return mk(O_XOR, w, a->a, mkConst(a->b->k ^ b->k, w));
        if (a->op == O_ITE && iteConst(a, 2)) return mk(O_ITE, w, a->a, mk(O_XOR, w, a->b, b), mk(O_XOR, w, a->c, b));
      }
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if (isC(b)) {
        if (b->k == 0) return a;
        if (b->k >= w) { if (op != O_ASHR) return mkConst(0, w); break; }
        if (op == O_LSHR && a->op == O_ZEXT && b->k >= a->a->w) return mkConst(0, w);
        if (op == O_LSHR && a->op == O_CONCAT && b->k == a->b->w) return mk(O_ZEXT, w, a->a);
        if (op == O_LSHR && a->op == O_ZEXT && a->a->op == O_CONCAT && b->k == a->a->b->w) return mk(O_ZEXT, w, a->a->a);
        if (op == a->op && isC(a->b) && op != O_ASHR) return mk(op, w, a->a, mkConst(a->b->k + b->k >= w ? w : a->b->k + b->k, w));
      }
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (isC(b)) {
        if (a->w == 1) return b->k ? a : mkNot(a);
        if (a->op == O_ITE && iteConst(a)) return mk(O_ITE, 1, a->a, mk(O_EQ, 1, a->b, b), mk(O_EQ, 1, a->c, b));
        if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mk(O_ITE, 1, a->a, mk(O_EQ, 1, a->b, b), mk(O_EQ, 1, a->c, b));
        if (a->op == O_ITE) { E x = mk(O_EQ, 1, a->b, b), y = mk(O_EQ, 1, a->c, b); if (isC(x) || isC(y)) return mk(O_ITE, 1, a->a, x, y); }
        if (a->op == O_ZEXT) { if (b->k > maskw(a->a->w)) return mkConst(0, 1); return mk(O_EQ, 1, a->a, mkConst(b->k, a->a->w)); }
        if (a->op == O_SEXT) { if (((u128)sextw(b->k, a->a->w) & maskw(a->w)) != b->k) return mkConst(0, 1); return mk(O_EQ, 1, a->a, mkConst(b->k, a->a->w)); }
        if (a->op == O_ADD && isC(a->b)) return mk(O_EQ, 1, a->a, mkConst(b->k - a->b->k, a->w));
        if (a->op == O_SUB && isC(a->a)) return mk(O_EQ, 1, a->b, mkConst(a->a->k - b->k, a->w));
        if (a->op == O_XOR && isC(a->b)) return mk(O_EQ, 1, a->a, mkConst(b->k ^ a->b->k, a->w));
        if (a->op == O_CONCAT) return mk(O_AND, 1, mk(O_EQ, 1, a->a, mkConst(b->k >> a->b->w, a->a->w)), mk(O_EQ, 1, a->b, mkConst(b->k, a->b->w)));
      } else if (a->w == 1) {
        if (mkNot(a) == b) return mkConst(0, 1);
      } else if (a->op == O_ADD && b->op == O_ADD && a->a == b->a) return mk(O_EQ, 1, a->b, b->b);
      break;
    case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (isC(b) && b->k == 0) return mkConst(0, 1);
      if (isC(b) && b->k == 1) return mk(O_EQ, 1, a, mkConst(0, a->w));
      if (isC(a) && a->k == maskw(a->w)) return mkConst(0, 1);
      if (isC(b) && a->op == O_ZEXT) { if (b->k > maskw(a->a->w)) return mkConst(1, 1); return mk(O_ULT, 1, a->a, mkConst(b->k, a->a->w)); }
      if (isC(a) && b->op == O_ZEXT) { if (a->k >= maskw(b->a->w)) return mkConst(0, 1); return mk(O_ULT, 1, mkConst(a->k, b->a->w), b->a); }
      if (a->w == 1) return mk(O_AND, 1, mkNot(a), b);
      goto cmpite;
    case O_ULE:
      if (a == b) return mkConst(1, 1);
      if (isC(a) && a->k == 0) return mkConst(1, 1);
      if (isC(b) && b->k == maskw(b->w)) return mkConst(1, 1);
      if (isC(b) && b->k == 0) return mk(O_EQ, 1, a, b);
      if (isC(b) && a->op == O_ZEXT) { if (b->k >= maskw(a->a->w)) return mkConst(1, 1); return mk(O_ULE, 1, a->a, mkConst(b->k, a->a->w)); }
      if (isC(a) && b->op == O_ZEXT) { if (a->k > maskw(b->a->w)) return mkConst(0, 1); return mk(O_ULE, 1, mkConst(a->k, b->a->w), b->a); }
      if (a->w == 1) return mk(O_OR, 1, mkNot(a), b);
      goto cmpite;
    case O_SLT:
      if (a == b) return mkConst(0, 1);
      if (isC(b) && b->k == (u128)1 << (b->w - 1)) return mkConst(0, 1);
      if (isC(a) && a->k == maskw(a->w - 1)) return mkConst(0, 1);
      if (a->w == 1) return mk(O_AND, 1, a, mkNot(b));
      // canonical: x < k  ->  x <= k-1 ; k < x -> k+1 <= x
      if (isC(b)) return mk(O_SLE, 1, a, mkConst(b->k - 1, b->w));
      if (isC(a)) return mk(O_SLE, 1, mkConst(a->k + 1, a->w), b);
      goto cmpite;
    case O_SLE:
      // sign of an exclusive or
      if (isC(a) && a->k == 0 && b->op == O_XOR && b->w > 1) { E z = mkConst(0, b->w); return mkNot(mk(O_XOR, 1, mk(O_SLT, 1, b->a, z), mk(O_SLT, 1, b->b, z))); }
      if (isC(b) && b->k == maskw(b->w) && a->op == O_XOR && a->w > 1) { E z = mkConst(0, a->w); return mk(O_XOR, 1, mk(O_SLT, 1, a->a, z), mk(O_SLT, 1, a->b, z)); }
      if (a == b) return mkConst(1, 1);
      if (isC(b) && b->k == maskw(b->w - 1)) return mkConst(1, 1);
      if (isC(a) && a->k == (u128)1 << (a->w - 1)) return mkConst(1, 1);
      if (isC(b) && b->k == (u128)1 << (b->w - 1)) return mk(O_EQ, 1, a, b);
      if (isC(a) && a->k == maskw(a->w - 1)) return mk(O_EQ, 1, b, a);
      if (a->w == 1) return mk(O_OR, 1, a, mkNot(b));
      if (isC(b) && a->op == O_ZEXT && a->w > a->a->w) { i128 v = sextw(b->k, b->w); if (v < 0) return mkConst(0, 1); if (v >= (i128)maskw(a->a->w)) return mkConst(1, 1); return mk(O_ULE, 1, a->a, mkConst(b->k, a->a->w)); }
      if (isC(a) && b->op == O_ZEXT && b->w > b->a->w) { i128 v = sextw(a->k, a->w); if (v <= 0) return mkConst(1, 1); if (v > (i128)maskw(b->a->w)) return mkConst(0, 1); return mk(O_ULE, 1, mkConst(a->k, b->a->w), b->a); }
      if (isC(b) && a->op == O_SEXT) { i128 v = sextw(b->k, b->w); unsigned n = a->a->w; i128 hi = (i128)maskw(n - 1), lo = -hi - 1; if (v >= hi) return mkConst(1, 1); if (v < lo) return mkConst(0, 1); return mk(O_SLE, 1, a->a, mkConst((u128)v, n)); }
      if (isC(a) && b->op == O_SEXT) { i128 v = sextw(a->k, a->w); unsigned n = b->a->w; i128 hi = (i128)maskw(n - 1), lo = -hi - 1; if (v <= lo) return mkConst(1, 1); if (v > hi) return mkConst(0, 1); return mk(O_SLE, 1, mkConst((u128)v, n), b->a); }
      // strip a common constant addend when neither side can wrap
      if (a->op == O_ADD && isC(a->b) && isC(b)) { i128 kk = sextw(a->b->k, a->w), r; if (a->a->lo + 0 >= wmin(a->w) && !__builtin_sub_overflow(sextw(b->k, b->w), kk, &r)) { i128 l, h; if (!__builtin_add_overflow(a->a->lo, kk, &l) && !__builtin_add_overflow(a->a->hi, kk, &h) && l >= wmin(a->w) && h <= wmax(a->w) && r >= wmin(a->w) && r <= wmax(a->w)) return mk(O_SLE, 1, a->a, mkConst((u128)r, a->w)); } }
      if (b->op == O_ADD && isC(b->b) && isC(a)) { i128 kk = sextw(b->b->k, b->w), r; if (!__builtin_sub_overflow(sextw(a->k, a->w), kk, &r)) { i128 l, h; if (!__builtin_add_overflow(b->a->lo, kk, &l) && !__builtin_add_overflow(b->a->hi, kk, &h) && l >= wmin(b->w) && h <= wmax(b->w) && r >= wmin(b->w) && r <= wmax(b->w)) return mk(O_SLE, 1, mkConst((u128)r, a->w), b->a); } }
    cmpite:
      if (isC(b) && a->op == O_ITE && (iteConst(a) || isC(a->b) || isC(a->c))) return mk(O_ITE, 1, a->a, mk(op, 1, a->b, b), mk(op, 1, a->c, b));
      if (isC(b) && a->op == O_ITE) { E x = mk(op, 1, a->b, b), y = mk(op, 1, a->c, b); if (isC(x) || isC(y)) return mk(O_ITE, 1, a->a, x, y); }
      if (isC(a) && b->op == O_ITE && !(iteConst(b) || isC(b->b) || isC(b->c))) { E x = mk(op, 1, a, b->b), y = mk(op, 1, a, b->c); if (isC(x) || isC(y)) return mk(O_ITE, 1, b->a, x, y); }
      if (isC(a) && b->op == O_ITE && (iteConst(b) || isC(b->b) || isC(b->c))) return mk(O_ITE, 1, b->a, mk(op, 1, a, b->b), mk(op, 1, a, b->c));
      break;
    case O_ITE:
      // clamping a value that is already in range
      if (w > 1 && a->op == O_SLE && isC(c) && isC(a->a) && a->b == b && sextw(c->k, w) + 1 == sextw(a->a->k, a->a->w) && b->lo >= sextw(c->k, w)) return b;
      if (w > 1 && a->op == O_SLE && isC(c) && isC(a->b) && a->a == b && sextw(c->k, w) - 1 == sextw(a->b->k, a->b->w) && b->hi <= sextw(c->k, w)) return b;
      if (isC(a)) return a->k ? b : c;
      if (b == c) return b;
      if (a->op == O_XOR && a->w == 1 && isC(a->b)) return mk(O_ITE, w, a->a, c, b); // ite(!x)
      if (w == 1) {
        if (isTrue(b)) return mk(O_OR, 1, a, c);
        if (isFalse(b)) return mk(O_AND, 1, mkNot(a), c);
        if (isTrue(c)) return mk(O_OR, 1, mkNot(a), b);
        if (isFalse(c)) return mk(O_AND, 1, a, b);
        if (a == b) return mk(O_OR, 1, a, c);
        if (a == c) return mk(O_AND, 1, a, b);
      }
      if (b->op == O_ITE && b->a == a) return mk(O_ITE, w, a, b->b, c);
      if (c->op == O_ITE && c->a == a) return mk(O_ITE, w, a, b, c->c);
      break;
    case O_CONCAT:
      if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->a == b->a && a->k == b->k + b->w) return mk(O_EXTRACT, w, a->a, nullptr, nullptr, b->k);
      if (isC(a) && a->k == 0) return mk(O_ZEXT, w, b);
      break;
    case O_EXTRACT:
      if (k == 0 && w == a->w) return a;
      if (a->op == O_EXTRACT) return mk(O_EXTRACT, w, a->a, nullptr, nullptr, k + a->k);
      if (a->op == O_CONCAT) {
        if (k >= a->b->w) return mk(O_EXTRACT, w, a->a, nullptr, nullptr, k - a->b->w);
        if (k + w <= a->b->w) return mk(O_EXTRACT, w, a->b, nullptr, nullptr, k);
      }
      if (a->op == O_ZEXT) {
        if (k >= a->a->w) return mkConst(0, w);
        if (k + w <= a->a->w) return mk(O_EXTRACT, w, a->a, nullptr, nullptr, k);
        if (k == 0) return mk(O_ZEXT, w, a->a);
      }
      if (a->op == O_SEXT) {
        if (k + w <= a->a->w) return mk(O_EXTRACT, w, a->a, nullptr, nullptr, k);
        if (k == 0) return mk(O_SEXT, w, a->a);
      }
      if (a->op == O_ITE && (iteConst(a) || isC(a->b) || isC(a->c) )) return mk(O_ITE, w, a->a, mk(O_EXTRACT, w, a->b, nullptr, nullptr, k), mk(O_EXTRACT, w, a->c, nullptr, nullptr, k));
      if (k == 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_ADD || a->op == O_SUB)) {
        // low bits depend on low bits only
        if (isC(a->b) || a->a->op == O_ZEXT || a->b->op == O_ZEXT || a->a->op == O_SEXT)
          return mk(a->op, w, mk(O_EXTRACT, w, a->a, nullptr, nullptr, 0), mk(O_EXTRACT, w, a->b, nullptr, nullptr, 0));
      }
      if ((a->op == O_LSHR) && isC(a->b) && k + w + a->b->k <= a->w) return mk(O_EXTRACT, w, a->a, nullptr, nullptr, k + a->b->k);
      break;
    case O_ZEXT:
      if (w == a->w) return a;
      if (a->op == O_ZEXT) return mk(O_ZEXT, w, a->a);
      if (a->op == O_ITE && iteConst(a)) return mk(O_ITE, w, a->a, mk(O_ZEXT, w, a->b), mk(O_ZEXT, w, a->c));
      break;
    case O_SEXT:
      // sign extension of a truncation that loses nothing
      if (a->op == O_EXTRACT && a->k == 0 && a->w > 1 && a->a->lo >= wmin(a->w) && a->a->hi <= wmax(a->w)) { E x = a->a; return w == x->w ? x : w > x->w ? mk(O_SEXT, w, x) : mk(O_EXTRACT, w, x, nullptr, nullptr, 0); }
      if (w == a->w) return a;
      if (a->op == O_SEXT) return mk(O_SEXT, w, a->a);
      if (a->op == O_ZEXT && a->w > a->a->w) return mk(O_ZEXT, w, a->a);
      if (a->op == O_ITE && iteConst(a)) return mk(O_ITE, w, a->a, mk(O_SEXT, w, a->b), mk(O_SEXT, w, a->c));
      if (a->w == 1) return mk(O_ITE, w, a, mkConst(maskw(w), w), mkConst(0, w));
      break;
    default: break;
  }
  return intern(op, w, a, b, c, k);
}

static uint32_t epochCtr = 0;
ModelP newModel() { auto m = std::make_shared<Model>(); m->epoch = ++epochCtr; return m; }

u128 evalM(E root, const Model& m) {
  if (isC(root)) return root->k;
  if (root->epoch == m.epoch) return root->val;
  // explicit stack: DAGs can be deep
  std::vector<E> st; st.push_back(root);
  auto ready = [&](E x) { return !x || isC(x) || x->epoch == m.epoch; };
  auto val = [&](E x) -> u128 { return !x ? 0 : isC(x) ? x->k : x->val; };
  while (!st.empty()) {
    E e = st.back();
    if (ready(e)) { st.pop_back(); continue; }
    if (e->op == O_SYM) { uint64_t n = (uint64_t)e->k; e->val = n < m.v.size() ? m.v[n] & maskw(e->w) : 0; e->epoch = m.epoch; st.pop_back(); continue; }
    if (e->op == O_ITE) {
      if (!ready(e->a)) { st.push_back(e->a); continue; }
      E t = val(e->a) ? e->b : e->c;
      if (!ready(t)) { st.push_back(t); continue; }
      e->val = val(t); e->epoch = m.epoch; st.pop_back(); continue;
    }
    bool go = true;
    if (!ready(e->a)) { st.push_back(e->a); go = false; }
    if (!ready(e->b)) { st.push_back(e->b); go = false; }
    if (!go) continue;
    if (e->op == O_CONCAT) e->val = (val(e->a) << e->b->w) | val(e->b);
    else { bool ok; e->val = foldOp(e->op, e->w, e->a->w, val(e->a), val(e->b), 0, e->k, ok); }
    e->epoch = m.epoch; st.pop_back();
  }
  return root->val;
}

std::string u128str(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }
static const char* opn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","feq","flt","fle","funo","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","fround"};
std::string exprStr(E e, int d) {
  if (!e) return "-";
  if (isC(e)) { i128 s = sextw(e->k, e->w); return s < 0 && e->w > 1 ? "-" + u128str((u128)(-s)) : u128str(e->k); }
  if (e->op == O_SYM) return "s" + u128str(e->k);
  if (!d) return "...";
  std::string r = "("; r += opn[e->op]; r += ":" + std::to_string(e->w);
  if (e->op == O_EXTRACT) r += "@" + u128str(e->k);
  for (E x : {e->a, e->b, e->c}) if (x) r += " " + exprStr(x, d - 1);
  return r + ")";
}
