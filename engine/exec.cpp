#include "exec.h"
#include <cstring>
#include <chrono>
#include <algorithm>
#include <functional>
#include <cmath>

namespace {
struct Val { E e = nullptr; u128 c = 0; };
struct Cell { E e; uint16_t v; };            // e==0: v is the byte, 256 = uninitialised; else byte index
struct Obj { uint64_t base, size; bool ro = false; std::vector<Cell> b; };
typedef std::shared_ptr<Obj> ObjP;
struct Ent { uint64_t base, size; ObjP o; };
struct FInfo { std::vector<int> slot; std::vector<Type*> rty; int nslots = 0; };
struct Frame { Function* f; FInfo* info; uint32_t bb = 0, ip = 0, prev = 0; std::vector<Val> s; size_t stackBase; };
typedef std::shared_ptr<Frame> FrameP;
struct State {
  std::vector<FrameP> fr; std::vector<Ent> heap, stack; std::unordered_map<int, ObjP> gl; uint64_t heapTop = 0x100000000000ull, stackTop = 0x700000000000ull;
  std::vector<E> pc, known; ModelP model; std::vector<E> inputs; std::vector<Val> obs; std::vector<std::string> cov; uint64_t instrs = 0; unsigned depth = 0; uint64_t hash = 1469598103934665603ull; bool mayPanic = false; unsigned undefs = 0; bool inSlice = false;
  uint64_t allocs = 0;
};
struct Kill {};                               // path infeasible / finished silently
struct Stop {};                               // stop the job

enum Intr { N_NONE = -1, N_CALL = 0, N_NOP, N_MEMCPY, N_MEMSET, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_OVF, N_SAT, N_FSH, N_CTPOP, N_CTTZ, N_CTLZ, N_UCMP, N_SCMP, N_ABS, N_BSWAP, N_BITREV, N_ISCONST, N_TLS, N_TRAP, N_EXPECT, N_FPTOSAT, N_FABS, N_FROUND, N_FMINMAX, N_COPYSIGN, N_FMA,
  N_ALLOC, N_ALLOCZ, N_DEALLOC, N_REALLOC, N_PANIC, N_ABORT, N_BCMP, N_STRLEN,
  N_SYM, N_SYMBOOL, N_SYMRANGE, N_PARAM, N_ASSUME, N_CHECK, N_COVER, N_OBSERVE, N_MAYPANIC, N_CHOOSE, N_ZERO, N_UNSUPPORTED, N_NATIVE, N_ISCONC, N_FMT };

struct Exec {
  Module& M; const JobOpts& O; JobResult R; std::vector<State*> work; State* st = nullptr; Frame* fr = nullptr; const Instr* cur = nullptr;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  std::unordered_map<Function*, FInfo*> infos; std::unordered_map<std::string, uint64_t> fnAddr; std::vector<Function*> fnByIdx; std::vector<std::pair<Global*, ObjP>> gvec; uint64_t gTop = 0x10000000ull;
  std::vector<std::pair<uint64_t, int>> gbase; std::map<std::pair<uint64_t, std::pair<i128, i128>>, uint64_t> symNum; std::set<Function*> fnSeen; std::vector<std::pair<uint64_t, Sample>> pool; uint64_t rng = 88172645463325252ull;

  Exec(Module& m, const JobOpts& o) : M(m), O(o) {}
  static E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  static Val fromE(E e) { if (isC(e)) return {nullptr, e->k}; return {e, 0}; }
  static Val C(u128 c) { return {nullptr, c}; }
  static unsigned leaves(Type* t) { switch (t->k) { case Type::VOID: return 0; case Type::ARR: case Type::VEC: return (unsigned)t->n * leaves(t->el); case Type::STRUCT: { unsigned n = 0; for (auto x : t->f) n += leaves(x); return n; } default: return 1; } }
  static void leafTypes(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) { switch (t->k) { case Type::VOID: return; case Type::ARR: for (uint64_t i = 0; i < t->n; i++) leafTypes(t->el, off + i * t->el->size, out); return; case Type::VEC: for (uint64_t i = 0; i < t->n; i++) leafTypes(t->el, off + i * (t->el->width() / 8), out); return; case Type::STRUCT: for (size_t i = 0; i < t->f.size(); i++) leafTypes(t->f[i], off + t->off[i], out); return; default: out.push_back({t, off}); } }
  std::unordered_map<Type*, std::vector<std::pair<Type*, uint64_t>>> ltCache;
  const std::vector<std::pair<Type*, uint64_t>>& leafT(Type* t) { auto it = ltCache.find(t); if (it != ltCache.end()) return it->second; auto& v = ltCache[t]; leafTypes(t, 0, v); return v; }
  [[noreturn]] void unsupported(const std::string& s) { throw IRError("unsupported: " + s + " in " + (fr ? fr->f->name : "?")); }

  // ------------------------------------------------------------ globals and constants
  uint64_t fnAddress(const std::string& n) { auto it = fnAddr.find(n); if (it != fnAddr.end()) return it->second; Function* f = M.fn(n); if (!f) throw IRError("no function " + n); uint64_t a = 0x20000000ull + 16 * fnByIdx.size(); fnByIdx.push_back(f); fnAddr[n] = a; return a; }
  uint64_t globalAddress(const std::string& n) {
    auto it = M.globals.find(n);
    if (it == M.globals.end()) { auto a = M.aliases.find(n); if (a != M.aliases.end()) return globalAddress(a->second); return fnAddress(n); }
    Global* g = it->second; if (g->gid >= 0) return g->addr;
    uint64_t al = std::max<uint64_t>(g->align, 16); gTop = (gTop + al - 1) / al * al; g->addr = gTop; g->gid = (int)gvec.size(); uint64_t sz = g->ty->size; gTop += sz + 64; gbase.push_back({g->addr, g->gid}); gvec.push_back({g, nullptr}); return g->addr; }
  ObjP globalObj(int gid) {
    if (gvec[gid].second) return gvec[gid].second; Global* g = gvec[gid].first; M.parseInit(g); auto o = std::make_shared<Obj>(); o->base = g->addr; o->size = g->ty->size; o->ro = g->constant; o->b.assign(o->size, Cell{nullptr, 0});
    if (g->external) { o->b.assign(o->size, Cell{nullptr, 0}); } else fill(*o, 0, g->cinit, g->ty); gvec[gid].second = o; return o; }
  void fill(Obj& o, uint64_t off, Cst* c, Type* t) {
    switch (c->k) {
      case Cst::ZERO: return;
      case Cst::UNDEF: for (uint64_t i = 0; i < t->size; i++) o.b[off + i] = {nullptr, 256}; return;
      case Cst::STR: for (size_t i = 0; i < c->bytes.size(); i++) o.b[off + i] = {nullptr, (uint8_t)c->bytes[i]}; return;
      case Cst::AGG: if (t->k == Type::STRUCT) { for (size_t i = 0; i < c->el.size(); i++) fill(o, off + t->off[i], c->el[i], t->f[i]); } else for (size_t i = 0; i < c->el.size(); i++) fill(o, off + i * t->el->size, c->el[i], t->el); return;
      default: { u128 v = cval(c); for (uint64_t i = 0; i < t->size; i++) o.b[off + i] = {nullptr, (uint8_t)(v >> (8 * i))}; } } }
  u128 cval(Cst* c) {
    switch (c->k) { case Cst::SCALAR: return c->v; case Cst::ZERO: case Cst::UNDEF: return 0; case Cst::GLOBAL: return globalAddress(c->name);
      case Cst::GEPC: { u128 b = cval(c->el[0]); Type* cur = c->gty; for (size_t i = 1; i < c->el.size(); i++) { int64_t ix = (int64_t)sextw(cval(c->el[i]), c->el[i]->ty->width()); if (i == 1) b += ix * (int64_t)cur->size; else if (cur->k == Type::STRUCT) { b += cur->off.at(ix); cur = cur->f.at(ix); } else { b += ix * (int64_t)cur->el->size; cur = cur->el; } } return b & maskw(64); }
      case Cst::CAST: { u128 a = cval(c->el[0]); unsigned w = c->ty->width(); if (c->op == "add") a += cval(c->el[1]); else if (c->op == "sub") a -= cval(c->el[1]); else if (c->op == "mul") a *= cval(c->el[1]); else if (c->op == "xor") a ^= cval(c->el[1]); return a & maskw(w); }
      default: throw IRError("constant kind"); } }
  std::unordered_map<Cst*, std::vector<Val>> ccache;
  void flat(Cst* c, Type* t, std::vector<Val>& out) {
    if (!t->agg()) { out.push_back(C(cval(c))); return; }
    if (c->k == Cst::AGG) { if (t->k == Type::STRUCT) for (size_t i = 0; i < c->el.size(); i++) flat(c->el[i], t->f[i], out); else for (auto x : c->el) flat(x, t->el, out); }
    else if (c->k == Cst::STR) for (char ch : c->bytes) out.push_back(C((uint8_t)ch)); else for (unsigned i = 0, n = leaves(t); i < n; i++) out.push_back(C(0)); }
  const Val& opv(const Opd& o, unsigned leaf = 0) {
    if (o.reg >= 0) return fr->s[fr->info->slot[o.reg] + leaf];
    auto it = ccache.find(o.c); if (it == ccache.end()) { std::vector<Val> v; flat(o.c, o.ty, v); it = ccache.emplace(o.c, std::move(v)).first; } return it->second[leaf]; }

  // ------------------------------------------------------------ function preparation
  FInfo* info(Function* f) {
    auto it = infos.find(f); if (it != infos.end()) return it->second; M.parseFn(f); auto I = new FInfo(); I->rty.assign(f->nregs, nullptr);
    for (size_t i = 0; i < f->pregs.size(); i++) I->rty[f->pregs[i]] = f->ptypes[i];
    for (auto& b : f->blocks) for (auto& in : b.ins) {
      Type* t = nullptr;
      switch (in.op) {
        case I_BIN: case I_CAST: case I_SELECT: case I_LOAD: case I_GEP: case I_ALLOCA: case I_PHI: case I_INSERTVALUE: case I_FREEZE: case I_ATOMICRMW: case I_CALL: case I_FNEG: case I_INSERTELT: t = in.ty; break;
        case I_ICMP: case I_FCMP: t = tyInt(1); break;   // (vector compares rejected at run time)
        case I_EXTRACTVALUE: { Type* a = in.o[0].ty; unsigned off = 0; for (auto ix : in.idx) { if (a->k == Type::STRUCT) { for (unsigned j = 0; j < ix; j++) off += leaves(a->f[j]); a = a->f[ix]; } else { off += ix * leaves(a->el); a = a->el; } } in.gconst = off; in.ty = a; t = a; break; }
        case I_EXTRACTELT: t = in.o[0].ty->el; in.ty = t; break;
        case I_SHUFFLE: { t = in.o[0].ty; in.ty = in.o[2].ty; break; }
        case I_CMPXCHG: t = nullptr; break;
        default: break; }
      if (in.op == I_INSERTVALUE) { Type* a = in.ty; unsigned off = 0; for (auto ix : in.idx) { if (a->k == Type::STRUCT) { for (unsigned j = 0; j < ix; j++) off += leaves(a->f[j]); a = a->f[ix]; } else { off += ix * leaves(a->el); a = a->el; } } in.gconst = off; }
      if (in.dst >= 0) I->rty[in.dst] = t;
      if ((in.op == I_ICMP || in.op == I_FCMP) && in.ty->k == Type::VEC) { if (in.dst >= 0) I->rty[in.dst] = in.ty; }
      if (in.op == I_CMPXCHG && in.dst >= 0) I->rty[in.dst] = nullptr; }
    I->slot.assign(f->nregs, -1);
    for (int r = 0; r < f->nregs; r++) { I->slot[r] = I->nslots; I->nslots += I->rty[r] ? std::max(1u, leaves(I->rty[r])) : 2; }
    infos[f] = I; return I; }

  // ------------------------------------------------------------ solver helpers
  bool timeUp() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > O.maxTime; }
  void inconclusive(const std::string& r) { R.status = "inconclusive"; R.reason = r; throw Stop{}; }
  int knownLit(E c) { for (E p : st->pc) if (p == c) return 1; for (E p : st->known) if (p == c) return 1; E n = mkNot(c); for (E p : st->pc) if (p == n) return 0; for (E p : st->known) if (p == n) return 0; return -1; }
  int known(E c, int d = 4) {
    if (isC(c)) return (int)c->k;
    int r = knownLit(c); if (r >= 0 || d == 0) return r;
    if (c->op == O_AND) { int a = known(c->a, d - 1); if (a == 0) return 0; int b = known(c->b, d - 1); if (b == 0) return 0; if (a == 1 && b == 1) return 1; }
    if (c->op == O_OR) { int a = known(c->a, d - 1); if (a == 1) return 1; int b = known(c->b, d - 1); if (b == 1) return 1; if (a == 0 && b == 0) return 0; }
    if (c->op == O_XOR && isTrue(c->b)) { int a = known(c->a, d - 1); if (a >= 0) return !a; }
    if (c->op == O_ITE) { int a = known(c->a, d - 1); if (a == 1) return known(c->b, d - 1); if (a == 0) return known(c->c, d - 1); }
    return -1; }
  SatRes query(E extra, ModelP* m) { if (timeUp()) inconclusive("time limit"); SatRes r = solverCheck(st->pc, extra, m); if (r == R_UNKNOWN) inconclusive("solver gave up on a query"); return r; }
  void addPC(State* s, E c) { // splits conjunctions
    if (isC(c)) return; if (c->op == O_AND) { addPC(s, c->a); addPC(s, c->b); return; } for (E p : s->pc) if (p == c) return; s->pc.push_back(c); }
  State* fork() { State* n = new State(*st); R.forks++; return n; }
  void sliceStep(State* s, unsigned bit) { s->depth++; if (s->depth > R.maxDepth) R.maxDepth = s->depth; if (O.slices > 1 && !s->inSlice) { s->hash = (s->hash ^ (bit + 2)) * 1099511628211ull; } }
  bool sliceDead(State* s) { if (O.slices <= 1 || s->inSlice) return false; if (s->depth >= O.sliceDepth) { s->inSlice = true; return ((s->hash >> 7) % O.slices) != O.slice; } return false; }
  // decide a condition on the current path; forks if both outcomes are possible. 'apply' is run by the caller with the outcome on each state.
  // returns: 0/1 = only outcome; 2 = both (then *other is the forked state that takes the false side)
  int decide(E c, State** other) {
    if (isC(c)) return (int)c->k;
    int kn = known(c); if (kn >= 0) return kn;
    bool v = evalM(c, *st->model) != 0; E nc = mkNot(c);
    ModelP m2; SatRes r = query(v ? nc : c, &m2);
    if (r == R_UNSAT) { st->known.push_back(v ? c : nc); return v; }
    State* o = fork(); 
    if (v) { addPC(st, c); addPC(o, nc); o->model = m2; }
    else { addPC(st, c); addPC(o, nc); o->model = st->model; st->model = m2; }
    sliceStep(st, 1); sliceStep(o, 0); *other = o; return 2; }
  // make a value concrete by forking the alternatives (the forked state re-executes the current instruction)
  u128 concretize(const Val& v) {
    if (!v.e) return v.c; E e = v.e; u128 k = evalM(e, *st->model); E eq = mk(O_EQ, 1, e, mkConst(k, e->w)); int kn = known(eq);
    if (kn != 1) { ModelP m2; SatRes r = query(mkNot(eq), &m2);
      if (r == R_SAT) { State* o = fork(); addPC(o, mkNot(eq)); o->model = m2; sliceStep(o, 0); if (sliceDead(o)) { R.skippedSlices++; delete o; } else work.push_back(o); addPC(st, eq); sliceStep(st, (unsigned)k + 1); if (sliceDead(st)) { R.skippedSlices++; throw Kill{}; } ownFrame(); }
      else st->known.push_back(eq); }
    return k; }
  void violation(const std::string& kind, const std::string& msg, const ModelP& m, const std::string& where) {
    Violation v; v.kind = kind; v.msg = msg; v.where = where; for (E e : st->inputs) v.inputs.push_back(evalM(e, *m)); R.violations.push_back(v); R.status = "violation"; if (!O.keepGoing || R.violations.size() >= 20) throw Stop{}; throw Kill{}; }
  std::string backtrace() { std::string s; for (int i = (int)st->fr.size() - 1, n = 0; i >= 0 && n < 8; i--, n++) { if (!s.empty()) s += " < "; s += demangleShort(st->fr[i]->f->name); } return s; }

  // ------------------------------------------------------------ memory
  static uint64_t up(uint64_t x, uint64_t a) { return (x + a - 1) / a * a; }
  uint64_t allocHeap(uint64_t size, uint64_t align, bool zero) { if (size > (1u << 22)) inconclusive("allocation of " + std::to_string(size) + " bytes"); st->heapTop = up(st->heapTop + 48, std::max<uint64_t>(align, 16)); uint64_t a = st->heapTop; auto o = std::make_shared<Obj>(); o->base = a; o->size = size; o->b.assign(size, Cell{nullptr, (uint16_t)(zero ? 0 : 256)}); st->heap.push_back({a, size, o}); st->heapTop += size; st->allocs++; return a; }
  uint64_t allocStack(uint64_t size, uint64_t align) { st->stackTop = up(st->stackTop + 32, std::max<uint64_t>(align, 16)); uint64_t a = st->stackTop; auto o = std::make_shared<Obj>(); o->base = a; o->size = size; o->b.assign(size, Cell{nullptr, 256}); st->stack.push_back({a, size, o}); st->stackTop += size; return a; }
  [[noreturn]] void memErr(const std::string& s) { violation("memory", s, st->model, backtrace()); throw Kill{}; }
  static Ent* bsearchEnt(std::vector<Ent>& v, uint64_t a) { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].base <= a) lo = m + 1; else hi = m; } return lo ? &v[lo - 1] : nullptr; }
  void freeHeap(uint64_t a, uint64_t size) { Ent* e = bsearchEnt(st->heap, a); if (!e || e->base != a) memErr("free of an invalid pointer"); if (!e->o) memErr("double free"); if (size != ~0ull && e->size != size) memErr("deallocation with a wrong size"); e->o = nullptr;
    while (!st->heap.empty() && !st->heap.back().o && st->heap.size() > 64) { /* keep freed entries for use-after-free detection */ break; } }
  Obj* access(uint64_t a, uint64_t n, bool write) {
    char msg[160];
    if (a >= 0x700000000000ull || (a >= 0x100000000000ull && a < 0x700000000000ull)) {
      auto& v = a >= 0x700000000000ull ? st->stack : st->heap; Ent* e = bsearchEnt(v, a);
      if (e && a + n <= e->base + e->size && a >= e->base) { if (!e->o) memErr("use after free"); if (write && e->o.use_count() > 1) e->o = std::make_shared<Obj>(*e->o); return e->o.get(); }
    } else if (a >= 0x10000000ull && a < 0x20000000ull) {
      auto it = std::upper_bound(gbase.begin(), gbase.end(), std::make_pair(a, 0x7fffffff)); if (it != gbase.begin()) { --it; int gid = it->second; auto jt = st->gl.find(gid); ObjP o = jt != st->gl.end() ? jt->second : globalObj(gid); if (a + n <= o->base + o->size) { if (write) { if (o->ro) memErr("write to a constant"); if (jt == st->gl.end()) { o = std::make_shared<Obj>(*o); st->gl[gid] = o; } else if (jt->second.use_count() > 2) { jt->second = o = std::make_shared<Obj>(*o); } return st->gl[gid].get(); } return jt != st->gl.end() ? jt->second.get() : gvec[gid].second.get(); } } }
    snprintf(msg, sizeof msg, "out-of-bounds %s of %llu bytes at 0x%llx", write ? "write" : "read", (unsigned long long)n, (unsigned long long)a); memErr(msg); }
  E undefSym(unsigned w) { uint64_t key = (1ull << 40) | ((uint64_t)st->undefs++ << 8) | w; R.undefs++; return symFor(key, w, false, 0); }
  E symFor(uint64_t key, unsigned w, bool input, uint32_t idx, i128 lo = 1, i128 hi = 0) { if (lo > hi) { lo = w == 1 ? 0 : wmin(w); hi = w == 1 ? 1 : wmax(w); } auto kk = std::make_pair(key, std::make_pair(lo, hi)); auto it = symNum.find(kk); uint64_t n; if (it == symNum.end()) { n = g_syms.size(); g_syms.push_back({w, input, idx, lo, hi}); symNum[kk] = n; } else n = it->second; return mkSym(w, n); }
  Val loadScalar(Obj* o, uint64_t off, unsigned bits) {
    unsigned nb = (bits + 7) / 8; Cell* c = &o->b[off]; bool conc = true; for (unsigned i = 0; i < nb; i++) if (c[i].e || c[i].v == 256) { conc = false; break; }
    if (conc) { u128 v = 0; for (unsigned i = 0; i < nb; i++) v |= (u128)c[i].v << (8 * i); return C(v & maskw(bits)); }
    E res = nullptr; unsigned i = 0;
    while (i < nb) { E piece; unsigned j = i + 1;
      if (!c[i].e) { if (c[i].v == 256) { while (j < nb && !c[j].e && c[j].v == 256) j++; piece = undefSym(8 * (j - i)); if (o->base >= 0) { /* make the undefined bytes stable */ Obj* w = o->ro ? nullptr : access(o->base + off + i, j - i, true); if (w) { for (unsigned q = i; q < j; q++) w->b[off + q] = Cell{piece, (uint16_t)(q - i)}; c = &w->b[off]; o = w; } } }
        else { u128 v = 0; while (j < nb && !c[j].e && c[j].v != 256) j++; for (unsigned q = i; q < j; q++) v |= (u128)c[q].v << (8 * (q - i)); piece = mkConst(v, 8 * (j - i)); } }
      else { while (j < nb && c[j].e == c[i].e && c[j].v == c[i].v + (j - i)) j++; piece = mk(O_EXTRACT, 8 * (j - i), c[i].e, nullptr, nullptr, 8 * c[i].v); }
      res = res ? mk(O_CONCAT, res->w + piece->w, piece, res) : piece; i = j; }
    if (res->w > bits) res = mk(O_EXTRACT, bits, res, nullptr, nullptr, 0);
    return fromE(res); }
  void storeScalar(Obj* o, uint64_t off, unsigned bits, const Val& v) {
    unsigned nb = (bits + 7) / 8; if (!v.e) { for (unsigned i = 0; i < nb; i++) o->b[off + i] = {nullptr, (uint8_t)(v.c >> (8 * i))}; return; }
    E e = v.e; if (e->w < nb * 8) e = mk(O_ZEXT, nb * 8, e); for (unsigned i = 0; i < nb; i++) o->b[off + i] = {e, (uint16_t)i}; }
  std::string readStr(uint64_t a, uint64_t n) { std::string s; if (!n) return s; Obj* o = access(a, n, false); for (uint64_t i = 0; i < n; i++) { Cell& c = o->b[a - o->base + i]; s += c.e || c.v > 255 ? '?' : (char)c.v; } return s; }

  // ------------------------------------------------------------ scalar operations
  static Val bin(Op op, unsigned w, const Val& a, const Val& b) { if (!a.e && !b.e) { bool ok; u128 v = foldOp(op, w, w, a.c, b.c, 0, 0, ok); if (ok) return C(v); } return fromE(mk(op, w, toE(a, w), toE(b, w))); }
  static Val cmp(Op op, unsigned w, const Val& a, const Val& b) { if (!a.e && !b.e) { bool ok; return C(foldOp(op, 1, w, a.c, b.c, 0, 0, ok)); } return fromE(mk(op, 1, toE(a, w), toE(b, w))); }
  static Val notv(const Val& a) { if (!a.e) return C(a.c ^ 1); return fromE(mkNot(a.e)); }
  static Val ite(const Val& c, const Val& a, const Val& b, unsigned w) { if (!c.e) return c.c ? a : b; return fromE(mk(O_ITE, w, c.e, toE(a, w), toE(b, w))); }
  static Val pcmp(Pred p, unsigned w, const Val& a, const Val& b) { switch (p) { case P_EQ: return cmp(O_EQ, w, a, b); case P_NE: return notv(cmp(O_EQ, w, a, b)); case P_UGT: return cmp(O_ULT, w, b, a); case P_UGE: return cmp(O_ULE, w, b, a); case P_ULT: return cmp(O_ULT, w, a, b); case P_ULE: return cmp(O_ULE, w, a, b); case P_SGT: return cmp(O_SLT, w, b, a); case P_SGE: return cmp(O_SLE, w, b, a); case P_SLT: return cmp(O_SLT, w, a, b); default: return cmp(O_SLE, w, a, b); } }
  static Val zext(const Val& a, unsigned w, unsigned nw) { if (!a.e) return C(a.c); return fromE(mk(O_ZEXT, nw, a.e)); }
  static Val sext(const Val& a, unsigned w, unsigned nw) { if (!a.e) return C((u128)sextw(a.c, w) & maskw(nw)); return fromE(mk(O_SEXT, nw, a.e)); }
  static Val trunc(const Val& a, unsigned nw) { if (!a.e) return C(a.c & maskw(nw)); return fromE(mk(O_EXTRACT, nw, a.e, nullptr, nullptr, 0)); }
  static Val andv(const Val& a, const Val& b) { return bin(O_AND, 1, a, b); }
  static Val orv(const Val& a, const Val& b) { return bin(O_OR, 1, a, b); }
  static Val eq1(const Val& a, const Val& b) { return notv(bin(O_XOR, 1, a, b)); }
  // overflow predicates
  Val ovf(char sgn, char op, unsigned w, const Val& a, const Val& b, const Val& r) {
    if (op == 'm') {
      if (w <= 64) { unsigned W = 2 * w; Val x = sgn == 's' ? sext(a, w, W) : zext(a, w, W), y = sgn == 's' ? sext(b, w, W) : zext(b, w, W); Val p = bin(O_MUL, W, x, y);
        // constant operand: compare against the quotient bounds, which avoids a wide multiplication
        const Val* k = !a.e ? &a : !b.e ? &b : nullptr; const Val* v = !a.e ? &b : &a;
        if (k && v->e) return mulOvfConst(sgn, w, *v, k->c);
        if (sgn == 'u') return notv(cmp(O_EQ, w, trunc(bin(O_LSHR, W, p, C(w)), w), C(0)));
        return orv(cmp(O_SLT, W, p, C((u128)wmin(w) & maskw(W))), cmp(O_SLT, W, C((u128)wmax(w)), p)); }
      const Val* k = !a.e ? &a : !b.e ? &b : nullptr; const Val* v = !a.e ? &b : &a;
      if (!k) unsupported("symbolic 128-bit multiplication overflow");
      if (!v->e) { // both constant
        i128 x = sextw(a.c, w), y = sextw(b.c, w); if (sgn == 's') { i128 z; return C(__builtin_mul_overflow(x, y, &z)); } u128 z; return C(__builtin_mul_overflow(a.c, b.c, &z)); }
      return mulOvfConst(sgn, w, *v, k->c); }
    if (sgn == 'u') return op == 'a' ? cmp(O_ULT, w, r, a) : cmp(O_ULT, w, a, b);
    u128 mx = maskw(w - 1), mn = (u128)1 << (w - 1);
    if (op == 'a') { const Val* k = !b.e ? &b : !a.e ? &a : nullptr; const Val& v = !b.e ? a : b;
      if (k) { i128 kv = sextw(k->c, w); if (kv >= 0) return cmp(O_SLT, w, C((mx - k->c) & maskw(w)), v); return cmp(O_SLT, w, v, C((mn - k->c) & maskw(w))); }
      return fromE(mkNot(mk(O_EQ, 1, toE(cmp(O_SLT, w, b, C(0)), 1), toE(cmp(O_SLT, w, r, a), 1)))); }
    if (!b.e) { i128 kv = sextw(b.c, w); if (kv >= 0) return cmp(O_SLT, w, a, C((mn + b.c) & maskw(w))); return cmp(O_SLT, w, C((mx + b.c) & maskw(w)), a); }
    if (!a.e && a.c == 0) return cmp(O_EQ, w, b, C(mn));
    return fromE(mkNot(mk(O_EQ, 1, toE(cmp(O_SLT, w, C(0), b), 1), toE(cmp(O_SLT, w, r, a), 1)))); }
  Val mulOvfConst(char sgn, unsigned w, const Val& v, u128 k) {
    if (k == 0 || k == 1) return C(0);
    if (sgn == 'u') return cmp(O_ULT, w, C(maskw(w) / k), v);
    i128 kv = sextw(k, w), mx = (i128)maskw(w - 1), mn = -mx - 1;
    if (kv == -1) return cmp(O_EQ, w, v, C((u128)mn & maskw(w)));
    i128 hi, lo; if (kv > 0) { hi = mx / kv; lo = mn / kv; } else { hi = mn / kv; lo = mx / kv; }
    return orv(cmp(O_SLT, w, C((u128)hi & maskw(w)), v), cmp(O_SLT, w, v, C((u128)lo & maskw(w)))); }
  Val arith(char op, unsigned w, const Val& a, const Val& b) { return bin(op == 'a' ? O_ADD : op == 's' ? O_SUB : O_MUL, w, a, b); }

  void set(const Instr& I, const Val& v, unsigned leaf = 0) { fr->s[fr->info->slot[I.dst] + leaf] = v; }
  void ownFrame() { FrameP& p = st->fr.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); fr = p.get(); }
  void jump(uint32_t b) {
    fr->prev = fr->bb; fr->bb = b; fr->ip = 0; auto& ins = fr->f->blocks[b].ins; if (ins.empty() || ins[0].op != I_PHI) return;
    static std::vector<Val> tmp; tmp.clear(); size_t n = 0;
    for (; n < ins.size() && ins[n].op == I_PHI; n++) { auto& I = ins[n]; size_t k = 0; while (k < I.idx.size() && I.idx[k] != fr->prev) k++; if (k == I.idx.size()) throw IRError("phi without predecessor"); for (unsigned q = 0, L = leaves(I.ty); q < L; q++) tmp.push_back(opv(I.o[k], q)); }
    size_t t = 0; for (size_t i = 0; i < n; i++) { auto& I = ins[i]; for (unsigned q = 0, L = leaves(I.ty); q < L; q++) set(I, tmp[t++], q); }
    fr->ip = (uint32_t)n; }
  void pushFrame(Function* f, const std::vector<Val>& args) {
    if (st->fr.size() > 400) inconclusive("call depth"); auto F = std::make_shared<Frame>(); F->f = f; F->info = info(f); F->s.resize(F->info->nslots); F->stackBase = st->stack.size(); if (!f->executed) { f->executed = true; } f->calls++; fnSeen.insert(f); size_t a = 0; for (size_t i = 0; i < f->pregs.size(); i++) for (unsigned q = 0, L = leaves(f->ptypes[i]); q < L; q++) F->s[F->info->slot[f->pregs[i]] + q] = args.at(a++); st->fr.push_back(F); fr = F.get(); }

  // integer formatting of the standard library (Display or Debug of an integer of at most 64 bits): delegated to the harness when it provides __vfmt; returns the type letter
  char fmtOf(const std::string& n) {
    if (n.rfind("_R", 0) != 0) return 0; size_t p = n.find("core3fmt3num"); if (p == std::string::npos) return 0; p += 12; if (n.compare(p, 4, "3imp") == 0) p += 4;
    if (p + 7 <= n.size() && strchr("htmyj", n[p]) && n.compare(p + 1, 6, "4__fmt") == 0 && (p + 7 == n.size() || n[p + 7] == '.')) { Function* f = M.fn("__vdigits"); return f && !f->decl ? n[p] - 32 : 0; } // digits written in a buffer (integer.to_string())
    if (p + 1 >= n.size() || !strchr("aijlmstxyh", n[p]) || n[p + 1] != 'N') return 0; size_t q = n.find("7Display3fmt", p), e = q == std::string::npos ? 0 : q + 12; if (!e) { q = n.find("5Debug3fmt", p); if (q == std::string::npos) return 0; e = q + 10; }
    if (e != n.size() && n[e] != '.') return 0; Function* f = M.fn("__vfmt"); return f && !f->decl ? n[p] : 0; }
  void callFmt(Instr& I, size_t a0, char t) {
    if (t >= 'A' && t <= 'Z') { unsigned w = t == 'H' ? 8 : t == 'T' ? 16 : t == 'M' ? 32 : 64; Val v = opv(I.o[a0]); if (w < 64) v = zext(v, w, 64); Function* f = M.fn("__vdigits"); M.parseFn(f); std::vector<Val> args{v, opv(I.o[a0 + 1]), opv(I.o[a0 + 2])}; pushFrame(f, args); return; }
    unsigned w = strchr("ah", t) ? 8 : strchr("st", t) ? 16 : strchr("lm", t) ? 32 : 64; bool sg = strchr("aslix", t); Val v;
    if (I.o[a0].ty->k == Type::PTR) { uint64_t a = (uint64_t)concretize(opv(I.o[a0])); Obj* o = access(a, w / 8, false); v = loadScalar(o, a - o->base, w); } else v = opv(I.o[a0]);
    if (w < 64) v = sg ? sext(v, w, 64) : zext(v, w, 64); Function* f = M.fn("__vfmt"); M.parseFn(f); std::vector<Val> args{v, C(sg), opv(I.o[a0 + 1])}; pushFrame(f, args); }

  int resolve(Instr& I) {
    const std::string& n = I.callee; if (fmtOf(n)) return N_FMT; auto has = [&](const char* s) { return n.find(s) != std::string::npos; }; auto ends = [&](const char* s) { size_t L = strlen(s); return n.size() >= L && n.compare(n.size() - L, L, s) == 0; };
    if (n.rfind("llvm.", 0) == 0) {
      if (has("lifetime") || has("assume") || has("noalias.scope") || has("dbg") || has("invariant") || has("prefetch") || has("x86.sse2.pause")) return N_NOP;
      if (has("memcpy") || has("memmove")) return N_MEMCPY; if (has("memset")) return N_MEMSET;
      if (has("with.overflow")) return N_OVF; if (has(".sat.") && (has("llvm.sadd") || has("llvm.ssub") || has("llvm.uadd") || has("llvm.usub"))) return N_SAT;
      if (has("fptosi.sat") || has("fptoui.sat")) return N_FPTOSAT;
      if (has("llvm.umax")) return N_UMAX; if (has("llvm.umin")) return N_UMIN; if (has("llvm.smax")) return N_SMAX; if (has("llvm.smin")) return N_SMIN;
      if (has("llvm.fsh")) return N_FSH; if (has("ctpop")) return N_CTPOP; if (has("cttz")) return N_CTTZ; if (has("ctlz")) return N_CTLZ; if (has("ucmp")) return N_UCMP; if (has("scmp")) return N_SCMP; if (has("llvm.abs")) return N_ABS; if (has("bswap")) return N_BSWAP; if (has("bitreverse")) return N_BITREV;
      if (has("is.constant")) return N_ISCONST; if (has("threadlocal.address")) return N_TLS; if (has("llvm.trap") || has("ubsantrap")) return N_TRAP; if (has("llvm.expect")) return N_EXPECT; if (has("fabs")) return N_FABS;
      if (has("llvm.floor") || has("llvm.ceil") || has("llvm.trunc") || has("llvm.round") || has("llvm.rint") || has("llvm.nearbyint")) return N_FROUND; if (has("llvm.maxnum") || has("llvm.minnum") || has("llvm.maximumnum") || has("llvm.minimumnum")) return N_FMINMAX;
      return N_UNSUPPORTED; }
    if (ends("12___rust_alloc")) return N_ALLOC; if (ends("19___rust_alloc_zeroed")) return N_ALLOCZ; if (ends("14___rust_dealloc")) return N_DEALLOC; if (ends("14___rust_realloc")) return N_REALLOC; if (has("no_alloc_shim_is_unstable")) return N_NOP;
    if (n == "__vsym") return N_SYM; if (n == "__vsymbool") return N_SYMBOOL; if (n == "__vsymrange") return N_SYMRANGE; if (n == "__vparam") return N_PARAM; if (n == "__vassume") return N_ASSUME; if (n == "__vcheck") return N_CHECK; if (n == "__vcover") return N_COVER; if (n == "__vobserve") return N_OBSERVE; if (n == "__vmaypanic") return N_MAYPANIC; if (n == "__vchoose") return N_CHOOSE; if (n == "__vnative") return N_NATIVE; if (n == "__visconc") return N_ISCONC;
    if (n.rfind("_R", 0) == 0 && (has("4core9panicking") || has("18handle_alloc_error") || has("17rust_begin_unwind") || has("18___rust_start_panic") || has("15begin_panic") || has("11begin_panic"))) return N_PANIC;
    if (n == "abort") return N_ABORT; if (n == "bcmp" || n == "memcmp") return N_BCMP; if (n == "strlen") return N_STRLEN; if (n == "write" || n == "writev" || n == "getenv") return N_ZERO;
    I.fn = M.fn(n); if (!I.fn || I.fn->decl) return N_UNSUPPORTED; return N_CALL; }

  void doPanic(const Instr& I, size_t a0) {
    std::string msg = demangleShort(I.callee), where; bool nounwind = I.callee.find("nounwind") != std::string::npos || I.callee.find("cannot_unwind") != std::string::npos;
    auto cv = [&](size_t i, uint64_t& v) { if (i >= I.o.size()) return false; const Opd& o = I.o[i]; if (o.ty->k == Type::META || leaves(o.ty) != 1) return false; const Val& x = opv(o); if (x.e) return false; v = (uint64_t)x.c; return true; };
    try { uint64_t loc; if (I.o.size() > a0 && cv(I.o.size() - 1, loc) && loc) { int bk = R.violations.size(); (void)bk; auto it = std::upper_bound(gbase.begin(), gbase.end(), std::make_pair(loc, 0x7fffffff)); if (it != gbase.begin()) { --it; ObjP o = globalObj(it->second); if (o->size == 24 && loc == o->base) { uint64_t fp = (uint64_t)loadScalar(o.get(), 0, 64).c, fl = (uint64_t)loadScalar(o.get(), 8, 64).c; uint64_t line = (uint64_t)loadScalar(o.get(), 16, 32).c; where = readStr(fp, fl) + ":" + std::to_string(line); } } }
      uint64_t p, l; if (I.callee.find("9panicking5panic") != std::string::npos && cv(a0, p) && cv(a0 + 1, l) && l < 400) msg = readStr(p, l); } catch (...) {}
    if (st->mayPanic && !nounwind) { R.panics++; R.paths++; for (auto& c : st->cov) R.covers.insert(c); throw Kill{}; }
    violation(nounwind ? "ub" : "panic", msg, st->model, where + " " + backtrace()); }

  void finishPath() {
    if (O.slices > 1 && !st->inSlice && ((st->hash >> 7) % O.slices) != O.slice) { throw Kill{}; }
    R.paths++; for (auto& c : st->cov) R.covers.insert(c);
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; uint64_t pri = rng;
    if (st->undefs == 0 || true) { if (pool.size() < O.samples || pri < pool.back().first) { Sample s; for (E e : st->inputs) s.inputs.push_back(evalM(e, *st->model)); for (auto& v : st->obs) s.obs.push_back(v.e ? evalM(v.e, *st->model) : v.c); pool.push_back({pri, s}); std::sort(pool.begin(), pool.end(), [](auto& a, auto& b) { return a.first < b.first; }); if (pool.size() > O.samples) pool.pop_back(); } }
    if (O.maxPaths && R.paths >= O.maxPaths) inconclusive("path limit"); throw Kill{}; }

  void check(const Val& b, const std::string& msg) {
    R.checks++; R.checkMsgs.insert(msg);
    if (!b.e) { if (b.c) { R.checksTrivial++; return; } violation("check", msg, st->model, ""); }
    E c = b.e; if (known(c) == 1) { R.checksTrivial++; return; }
    if (!evalM(c, *st->model)) violation("check", msg, st->model, "");
    // split conjunctions: each conjunct is simpler
    std::vector<E> cs; std::function<void(E)> sp = [&](E x) { if (x->op == O_AND) { sp(x->a); sp(x->b); } else cs.push_back(x); }; sp(c);
    for (E x : cs) { if (known(x) == 1) { continue; } ModelP m; SatRes r = query(mkNot(x), &m); if (r == R_SAT) violation("check", msg, m, ""); st->known.push_back(x); }
    R.checksSolved++; }

  void run(State* s0) {
    st = s0; 
    try { if (sliceDead(st)) { R.skippedSlices++; throw Kill{}; } for (;;) step(); } catch (Kill&) {} catch (Stop&) { delete st; st = nullptr; throw; }
    delete st; st = nullptr; }

  void pushOther(State* o) { if (sliceDead(o)) { R.skippedSlices++; delete o; } else work.push_back(o); }
  void checkSelf() { if (sliceDead(st)) { R.skippedSlices++; throw Kill{}; } }

  void step() {
    ownFrame(); Instr& I = fr->f->blocks[fr->bb].ins[fr->ip]; cur = &I;
    if (++st->instrs > O.maxInstr) { violation("nontermination", "no result after " + std::to_string(O.maxInstr) + " IR instructions", st->model, backtrace()); }
    R.instrs++; if ((R.instrs & 0xffff) == 0 && timeUp()) inconclusive("time limit");
    if (O.trace) fprintf(stderr, "[%s] %s\n", fr->f->name.c_str(), I.text.c_str());
    switch (I.op) {
      case I_BIN: { if (I.ty->agg()) { for (unsigned q = 0; q < I.ty->n; q++) set(I, bin((Op)I.sub, I.ty->el->width(), opv(I.o[0], q), opv(I.o[1], q)), q); fr->ip++; return; }
        unsigned w = I.ty->width(); const Val &a = opv(I.o[0]), &b = opv(I.o[1]); Op op = (Op)I.sub;
        if (op >= O_UDIV && op <= O_SREM) { Val z = cmp(O_EQ, w, b, C(0)); if (!z.e) { if (z.c) violation("ub", "division by zero", st->model, backtrace()); } else { State* o; int d = decide(z.e, &o); if (d == 2) { std::swap(*st, *o); work.push_back(o); /* o holds the zero-divisor path */ return; } if (d == 1) violation("ub", "division by zero", st->model, backtrace()); } }
        set(I, bin(op, w, a, b)); fr->ip++; return; }
      case I_ICMP: if (I.ty->agg()) { for (unsigned q = 0; q < I.ty->n; q++) set(I, pcmp((Pred)I.sub, I.ty->el->width(), opv(I.o[0], q), opv(I.o[1], q)), q); fr->ip++; return; } set(I, pcmp((Pred)I.sub, I.ty->width(), opv(I.o[0]), opv(I.o[1]))); fr->ip++; return;
      case I_FCMP: { unsigned w = I.ty->width(); const Val &a = opv(I.o[0]), &b = opv(I.o[1]); const std::string& p = I.callee; Val r, un = cmp(O_FUNO, w, a, b); std::string k = p.substr(1);
        if (p == "ord") r = notv(un); else if (p == "uno") r = un; else if (p == "true") r = C(1); else if (p == "false") r = C(0); else { bool o = p[0] == 'o';
          if (k == "eq") r = cmp(O_FEQ, w, a, b); else if (k == "ne") r = notv(cmp(O_FEQ, w, a, b)); else if (k == "lt") r = cmp(O_FLT, w, a, b); else if (k == "le") r = cmp(O_FLE, w, a, b); else if (k == "gt") r = cmp(O_FLT, w, b, a); else r = cmp(O_FLE, w, b, a);
          if (o) { if (k == "ne") r = andv(r, notv(un)); } else { if (k != "ne") r = orv(r, un); } }
        set(I, r); fr->ip++; return; }
      case I_FNEG: { unsigned w = I.ty->width(); set(I, bin(O_XOR, w, opv(I.o[0]), C((u128)1 << (w - 1)))); fr->ip++; return; }
      case I_CAST: { if (I.ty->agg()) { if (I.sub == C_BITCAST) unsupported("vector bitcast"); for (unsigned q = 0; q < I.ty->n; q++) { unsigned sw = I.o[0].ty->el->width(), dw = I.ty->el->width(); const Val& a = opv(I.o[0], q); set(I, I.sub == C_TRUNC ? trunc(a, dw) : I.sub == C_ZEXT ? zext(a, sw, dw) : sext(a, sw, dw), q); } fr->ip++; return; }
        unsigned sw = I.o[0].ty->agg() ? 0 : I.o[0].ty->width(), dw = I.ty->width(); 
        if (I.sub == C_BITCAST && I.o[0].ty->agg()) { // vector to integer
          Type* vt = I.o[0].ty; unsigned ew = vt->el->width(); E r = nullptr; for (unsigned q = 0; q < vt->n; q++) { E x = toE(opv(I.o[0], q), ew); r = r ? mk(O_CONCAT, r->w + ew, x, r) : x; } set(I, fromE(r)); fr->ip++; return; }
        Val a = opv(I.o[0]); Val r;
        switch (I.sub) { case C_TRUNC: r = trunc(a, dw); break; case C_ZEXT: r = zext(a, sw, dw); break; case C_SEXT: r = sext(a, sw, dw); break; case C_PTRTOINT: case C_INTTOPTR: r = dw < sw ? trunc(a, dw) : zext(a, sw, dw); break; case C_BITCAST: r = a; break;
          default: { Op op = I.sub == C_FPTOSI ? O_FPTOSI : I.sub == C_FPTOUI ? O_FPTOUI : I.sub == C_SITOFP ? O_SITOFP : I.sub == C_UITOFP ? O_UITOFP : I.sub == C_FPEXT ? O_FPEXT : O_FPTRUNC; r = fromE(mk(op, dw, toE(a, sw))); } }
        set(I, r); fr->ip++; return; }
      case I_SELECT: { if (I.o[0].ty->agg()) { for (unsigned q = 0; q < I.ty->n; q++) set(I, ite(opv(I.o[0], q), opv(I.o[1], q), opv(I.o[2], q), I.ty->el->width()), q); fr->ip++; return; }
        Val c = opv(I.o[0]); if (c.e) { int k = known(c.e); if (k >= 0) c = C(k); } if (!I.ty->agg()) { if (choice(I, c, opv(I.o[1]), opv(I.o[2]), I.ty->width())) return; set(I, ite(c, opv(I.o[1]), opv(I.o[2]), I.ty->width())); } else { auto& lt = leafT(I.ty); std::vector<Val> t; for (unsigned q = 0; q < lt.size(); q++) t.push_back(ite(c, opv(I.o[1], q), opv(I.o[2], q), lt[q].first->width())); for (unsigned q = 0; q < lt.size(); q++) set(I, t[q], q); } fr->ip++; return; }
      case I_FREEZE: { for (unsigned q = 0, L = leaves(I.ty); q < L; q++) { Val v = opv(I.o[0], q); set(I, v, q); } fr->ip++; return; }
      case I_LOAD: { uint64_t a = (uint64_t)concretize(opv(I.o[0])); auto& lt = leafT(I.ty); Obj* o = access(a, I.ty->size, false); for (unsigned q = 0; q < lt.size(); q++) { Val v = loadScalar(o, a - o->base + lt[q].second, lt[q].first->width()); o = access(a, I.ty->size, false); set(I, v, q); } fr->ip++; return; }
      case I_STORE: { uint64_t a = (uint64_t)concretize(opv(I.o[1])); auto& lt = leafT(I.ty); Obj* o = access(a, I.ty->size, true); for (unsigned q = 0; q < lt.size(); q++) storeScalar(o, a - o->base + lt[q].second, lt[q].first->width(), opv(I.o[0], q)); fr->ip++; return; }
      case I_GEP: { Val b = opv(I.o[0]); u128 k = I.gconst; Val acc = bin(O_ADD, 64, b, C((u128)I.gconst & maskw(64))); (void)k; for (auto& [oi, sc] : I.gscale) { unsigned w = I.o[oi].ty->width(); Val x = opv(I.o[oi]); if (w < 64) x = sext(x, w, 64); acc = bin(O_ADD, 64, acc, bin(O_MUL, 64, x, C((u128)(i128)sc & maskw(64)))); } set(I, acc); fr->ip++; return; }
      case I_ALLOCA: set(I, C(allocStack(I.ty2->size * I.gconst, I.cases.empty() ? 16 : (uint64_t)I.cases[0]))); fr->ip++; return;
      case I_EXTRACTVALUE: { unsigned L = leaves(I.ty); Val t[64]; if (L > 64) unsupported("aggregate"); for (unsigned q = 0; q < L; q++) t[q] = opv(I.o[0], (unsigned)I.gconst + q); for (unsigned q = 0; q < L; q++) set(I, t[q], q); fr->ip++; return; }
      case I_INSERTVALUE: { unsigned L = leaves(I.ty), k = leaves(I.o[1].ty); Val t[64]; if (L > 64) unsupported("aggregate"); for (unsigned q = 0; q < L; q++) t[q] = q >= I.gconst && q < I.gconst + k ? opv(I.o[1], q - (unsigned)I.gconst) : opv(I.o[0], q); for (unsigned q = 0; q < L; q++) set(I, t[q], q); fr->ip++; return; }
      case I_EXTRACTELT: { uint64_t i = (uint64_t)concretize(opv(I.o[1])); set(I, opv(I.o[0], (unsigned)i)); fr->ip++; return; }
      case I_INSERTELT: { uint64_t i = (uint64_t)concretize(opv(I.o[2])); std::vector<Val> t; for (unsigned q = 0; q < I.ty->n; q++) t.push_back(q == i ? opv(I.o[1]) : opv(I.o[0], q)); for (unsigned q = 0; q < I.ty->n; q++) set(I, t[q], q); fr->ip++; return; }
      case I_SHUFFLE: { unsigned n = (unsigned)I.o[0].ty->n; if (I.o[2].ty->n > I.o[0].ty->n) unsupported("widening shuffle"); std::vector<Val> t; for (unsigned q = 0; q < I.o[2].ty->n; q++) { unsigned k = (unsigned)opv(I.o[2], q).c; t.push_back(k < n ? opv(I.o[0], k) : opv(I.o[1], k - n)); } for (unsigned q = 0; q < t.size(); q++) set(I, t[q], q); fr->ip++; return; }
      case I_FENCE: fr->ip++; return;
      case I_ATOMICRMW: { uint64_t a = (uint64_t)concretize(opv(I.o[0])); unsigned w = I.ty->width(); Obj* o = access(a, I.ty->size, true); Val old = loadScalar(o, a - o->base, w), v = opv(I.o[1]), nv; const std::string& k = I.callee; if (k == "xchg") nv = v; else if (k == "add") nv = bin(O_ADD, w, old, v); else if (k == "sub") nv = bin(O_SUB, w, old, v); else if (k == "or") nv = bin(O_OR, w, old, v); else if (k == "and") nv = bin(O_AND, w, old, v); else unsupported("atomicrmw " + k); storeScalar(o, a - o->base, w, nv); set(I, old); fr->ip++; return; }
      case I_CMPXCHG: { uint64_t a = (uint64_t)concretize(opv(I.o[0])); unsigned w = I.ty->width(); Obj* o = access(a, I.ty->size, true); Val old = loadScalar(o, a - o->base, w); Val ok = cmp(O_EQ, w, old, opv(I.o[1])); storeScalar(o, a - o->base, w, ite(ok, opv(I.o[2]), old, w)); set(I, old, 0); set(I, ok, 1); fr->ip++; return; }
      case I_BR: jump(I.idx[0]); return;
      case I_CBR: { Val c = opv(I.o[0]); if (!c.e) { jump(I.idx[c.c ? 0 : 1]); return; } State* o = nullptr; int d = decide(c.e, &o); if (d == 2) { // other takes the false side
          State* me = st; Frame* mf = fr; st = o; ownFrame(); jump(I.idx[1]); st = me; fr = mf; pushOther(o); ownFrame(); jump(I.idx[0]); checkSelf(); return; } jump(I.idx[d ? 0 : 1]); return; }
      case I_SWITCH: { Val v = opv(I.o[0]); unsigned w = I.o[0].ty->width(); if (!v.e) { for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == v.c) { jump(I.idx[i + 1]); return; } jump(I.idx[0]); return; }
        for (size_t i = 0; i < I.cases.size(); i++) { Val c = cmp(O_EQ, w, v, C(I.cases[i])); if (!c.e) { if (c.c) { jump(I.idx[i + 1]); return; } continue; } State* o = nullptr; int d = decide(c.e, &o); if (d == 1) { jump(I.idx[i + 1]); return; } if (d == 2) { // current state took the 'equal' side; the other re-executes the switch
              pushOther(o); ownFrame(); jump(I.idx[i + 1]); checkSelf(); return; } }
        jump(I.idx[0]); return; }
      case I_RET: { std::vector<Val> rv; if (!I.o.empty()) for (unsigned q = 0, L = leaves(I.ty); q < L; q++) rv.push_back(opv(I.o[0], q)); st->stack.resize(fr->stackBase); if (st->stack.empty()) st->stackTop = 0x700000000000ull; else st->stackTop = st->stack.back().base + st->stack.back().size; st->fr.pop_back(); if (st->fr.empty()) finishPath(); ownFrame(); Instr& CI = fr->f->blocks[fr->bb].ins[fr->ip]; if (CI.dst >= 0) for (unsigned q = 0; q < rv.size(); q++) set(CI, rv[q], q); if (CI.isInvoke) jump(CI.idx[0]); else fr->ip++; return; }
      case I_UNREACHABLE: violation("ub", "unreachable code reached", st->model, backtrace()); return;
      case I_EH: unsupported("exception handling");
      case I_CALL: call(I); return;
      default: unsupported("instruction " + I.text); } }

  // a choice between two values: kept as a formula while choices are not nested too deeply, explored as two paths beyond that (true when it has been done)
  bool choice(Instr& I, Val& c, Val a, Val b, unsigned w) {
    if (!c.e || w == 1) return false; unsigned n = std::max(c.e->ites, std::max<uint16_t>(a.e ? a.e->ites : 0, b.e ? b.e->ites : 0)); if (n < O.ites) return false;
    State* o = nullptr; int d = decide(c.e, &o); if (d != 2) { c = C(d); return false; }
    State* me = st; Frame* mf = fr; st = o; ownFrame(); set(I, b); next(I); st = me; fr = mf; pushOther(o); ownFrame(); set(I, a); next(I); checkSelf(); return true; }
  void next(Instr& I) { if (I.isInvoke) jump(I.idx[0]); else fr->ip++; }
  void call(Instr& I) {
    if (I.indirect) { uint64_t a = (uint64_t)concretize(opv(I.o[0])); if (a < 0x20000000ull || (a - 0x20000000ull) / 16 >= fnByIdx.size()) memErr("call through an invalid pointer"); Function* f = fnByIdx[(a - 0x20000000ull) / 16]; Instr tmp; tmp.callee = f->name; int r = resolve(tmp); if (r == N_PANIC) doPanic(I, 1); if (r == N_FMT) { callFmt(I, 1, fmtOf(f->name)); return; } if (r != N_CALL) { // indirect call of a special function
          if (f->decl) unsupported("indirect call of " + f->name); }
      M.parseFn(f); std::vector<Val> args; for (size_t i = 1; i < I.o.size(); i++) for (unsigned q = 0, L = leaves(I.o[i].ty); q < L; q++) args.push_back(opv(I.o[i], q)); pushFrame(f, args); return; }
    if (I.intrinsic == -1) { I.intrinsic = resolve(I); }
    switch (I.intrinsic) {
      case N_CALL: { M.parseFn(I.fn); std::vector<Val> args; for (auto& o : I.o) for (unsigned q = 0, L = leaves(o.ty); q < L; q++) args.push_back(opv(o, q)); pushFrame(I.fn, args); return; }
      case N_FMT: callFmt(I, 0, fmtOf(I.callee)); return;
      case N_NOP: break;
      case N_MEMCPY: { uint64_t n = (uint64_t)concretize(opv(I.o[2])); uint64_t d = (uint64_t)concretize(opv(I.o[0])), s = (uint64_t)concretize(opv(I.o[1])); if (n) { Obj* so = access(s, n, false); std::vector<Cell> t(so->b.begin() + (s - so->base), so->b.begin() + (s - so->base) + n); Obj* o = access(d, n, true); std::copy(t.begin(), t.end(), o->b.begin() + (d - o->base)); } break; }
      case N_MEMSET: { uint64_t n = (uint64_t)concretize(opv(I.o[2])); uint64_t d = (uint64_t)concretize(opv(I.o[0])); Val v = opv(I.o[1]); if (n) { Obj* o = access(d, n, true); for (uint64_t i = 0; i < n; i++) o->b[d - o->base + i] = v.e ? Cell{v.e, 0} : Cell{nullptr, (uint8_t)v.c}; } break; }
      case N_UMAX: case N_UMIN: case N_SMAX: case N_SMIN: { unsigned w = I.ty->width(); Val a = opv(I.o[0]), b = opv(I.o[1]); Val c = I.intrinsic == N_UMAX ? cmp(O_ULT, w, b, a) : I.intrinsic == N_UMIN ? cmp(O_ULT, w, a, b) : I.intrinsic == N_SMAX ? cmp(O_SLT, w, b, a) : cmp(O_SLT, w, a, b); if (c.e) { int k = known(c.e); if (k >= 0) c = C(k); } if (choice(I, c, a, b, w)) return; set(I, ite(c, a, b, w)); break; }
      case N_OVF: { const std::string& n = I.callee; char sg = n[5], op = n[6]; unsigned w = I.o[0].ty->width(); Val a = opv(I.o[0]), b = opv(I.o[1]); Val r = arith(op, w, a, b); if (op == 's' && false) {} Val o = ovf(sg, op == 'a' ? 'a' : op == 's' ? 's' : 'm', w, a, b, r); set(I, r, 0); set(I, o, 1); break; }
      case N_SAT: { const std::string& n = I.callee; char sg = n[5], op = n[6]; unsigned w = I.ty->width(); Val a = opv(I.o[0]), b = opv(I.o[1]); Val r = arith(op, w, a, b); Val o = ovf(sg, op, w, a, b, r); Val satv; if (sg == 'u') satv = op == 'a' ? C(maskw(w)) : C(0); else satv = ite(cmp(O_SLT, w, a, C(0)), C((u128)1 << (w - 1)), C(maskw(w - 1)), w); set(I, ite(o, satv, r, w)); break; }
      case N_FSH: { unsigned w = I.ty->width(); Val a = opv(I.o[0]), b = opv(I.o[1]), s = opv(I.o[2]); if (s.e) { if (a.e != b.e) unsupported("symbolic funnel shift"); } uint64_t k = (uint64_t)(concretize(s) % w); bool left = I.callee.find("fshl") != std::string::npos; if (!left) k = (w - k) % w; if (k == 0) { set(I, left ? a : b); break; } set(I, bin(O_OR, w, bin(O_SHL, w, a, C(k)), bin(O_LSHR, w, b, C(w - k)))); break; }
      case N_CTPOP: case N_CTTZ: case N_CTLZ: { unsigned w = I.ty->width(); Val a = opv(I.o[0]); if (!a.e) { unsigned r = 0; if (I.intrinsic == N_CTPOP) { for (unsigned i = 0; i < w; i++) r += (a.c >> i) & 1; } else if (I.intrinsic == N_CTTZ) { while (r < w && !((a.c >> r) & 1)) r++; } else while (r < w && !((a.c >> (w - 1 - r)) & 1)) r++; set(I, C(r)); break; }
        Val r; if (I.intrinsic == N_CTPOP) { r = C(0); for (unsigned i = 0; i < w; i++) r = bin(O_ADD, w, r, fromE(mk(O_ZEXT, w, mk(O_EXTRACT, 1, a.e, nullptr, nullptr, i)))); } else { r = C(w); for (unsigned j = 0; j < w; j++) { unsigned i = I.intrinsic == N_CTTZ ? w - 1 - j : j; unsigned res = I.intrinsic == N_CTTZ ? i : w - 1 - i; r = ite(fromE(mk(O_EXTRACT, 1, a.e, nullptr, nullptr, i)), C(res), r, w); } } set(I, r); break; }
      case N_UCMP: case N_SCMP: { unsigned w = I.o[0].ty->width(), rw = I.ty->width(); Val a = opv(I.o[0]), b = opv(I.o[1]); Val lt = cmp(I.intrinsic == N_UCMP ? O_ULT : O_SLT, w, a, b), e = cmp(O_EQ, w, a, b); set(I, ite(lt, C(maskw(rw)), ite(e, C(0), C(1), rw), rw)); break; }
      case N_ABS: { unsigned w = I.ty->width(); Val a = opv(I.o[0]); set(I, ite(cmp(O_SLT, w, a, C(0)), bin(O_SUB, w, C(0), a), a, w)); break; }
      case N_BSWAP: { unsigned w = I.ty->width(), nb = w / 8; Val a = opv(I.o[0]); if (!a.e) { u128 r = 0; for (unsigned i = 0; i < nb; i++) r |= ((a.c >> (8 * i)) & 0xff) << (8 * (nb - 1 - i)); set(I, C(r)); break; } E r = nullptr; for (unsigned i = 0; i < nb; i++) { E x = mk(O_EXTRACT, 8, a.e, nullptr, nullptr, 8 * i); r = r ? mk(O_CONCAT, r->w + 8, r, x) : x; } set(I, fromE(r)); break; }
      case N_BITREV: { unsigned w = I.ty->width(); u128 a = concretize(opv(I.o[0])), r = 0; for (unsigned i = 0; i < w; i++) r |= ((a >> i) & 1) << (w - 1 - i); set(I, C(r)); break; }
      case N_ISCONST: set(I, C(0)); break;
      case N_TLS: set(I, opv(I.o[0])); break;
      case N_EXPECT: set(I, opv(I.o[0])); break;
      case N_FABS: { unsigned w = I.ty->width(); set(I, bin(O_AND, w, opv(I.o[0]), C(maskw(w - 1)))); break; }
      case N_FROUND: { const std::string& n = I.callee; int k = n.find("floor") != std::string::npos ? 3 : n.find("ceil") != std::string::npos ? 2 : n.find("trunc") != std::string::npos ? 4 : n.find("roundeven") != std::string::npos || n.find("rint") != std::string::npos || n.find("nearbyint") != std::string::npos ? 0 : 1; unsigned w = I.ty->width(); set(I, fromE(mk(O_FROUND, w, toE(opv(I.o[0]), w), nullptr, nullptr, k))); break; }
      case N_FMINMAX: { unsigned w = I.ty->width(); Val a = opv(I.o[0]), b = opv(I.o[1]); bool mx = I.callee.find("max") != std::string::npos; Val an = cmp(O_FUNO, w, a, a), bn = cmp(O_FUNO, w, b, b); Val c = mx ? cmp(O_FLT, w, a, b) : cmp(O_FLT, w, b, a); set(I, ite(an, b, ite(bn, a, ite(c, b, a, w), w), w)); break; }
      case N_FPTOSAT: { unsigned w = I.ty->width(), sw = I.o[0].ty->width(); bool sg = I.callee.find("fptosi") != std::string::npos; Val a = opv(I.o[0]); double hi = sg ? ldexp(1.0, w - 1) : ldexp(1.0, w), lo = sg ? -ldexp(1.0, w - 1) : 0.0; auto bits = [&](double d) -> u128 { if (sw == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t x; memcpy(&x, &d, 8); return x; }; Val nan = cmp(O_FUNO, sw, a, a), ge = cmp(O_FLE, sw, C(bits(hi)), a), le = sg ? cmp(O_FLT, sw, a, C(bits(lo))) : cmp(O_FLE, sw, a, C(bits(0.0))); Val conv = fromE(mk(sg ? O_FPTOSI : O_FPTOUI, w, toE(a, sw))); Val r = ite(nan, C(0), ite(ge, C(sg ? maskw(w - 1) : maskw(w)), ite(le, C(sg ? (u128)1 << (w - 1) : 0), conv, w), w), w); set(I, r); break; }
      case N_TRAP: case N_ABORT: violation("panic", "abort", st->model, backtrace()); return;
      case N_PANIC: doPanic(I, 0); return;
      case N_ALLOC: case N_ALLOCZ: { uint64_t n = (uint64_t)concretize(opv(I.o[0])), al = (uint64_t)concretize(opv(I.o[1])); set(I, C(allocHeap(n, al, I.intrinsic == N_ALLOCZ))); break; }
      case N_DEALLOC: { uint64_t p = (uint64_t)concretize(opv(I.o[0])), n = (uint64_t)concretize(opv(I.o[1])); freeHeap(p, n); break; }
      case N_REALLOC: { uint64_t p = (uint64_t)concretize(opv(I.o[0])), on = (uint64_t)concretize(opv(I.o[1])), al = (uint64_t)concretize(opv(I.o[2])), nn = (uint64_t)concretize(opv(I.o[3])); uint64_t np = allocHeap(nn, al, false); uint64_t k = std::min(on, nn); if (k) { Obj* so = access(p, k, false); std::vector<Cell> t(so->b.begin() + (p - so->base), so->b.begin() + (p - so->base) + k); Obj* d = access(np, k, true); std::copy(t.begin(), t.end(), d->b.begin()); } freeHeap(p, on); set(I, C(np)); break; }
      case N_BCMP: { uint64_t n = (uint64_t)concretize(opv(I.o[2])), a = (uint64_t)concretize(opv(I.o[0])), b = (uint64_t)concretize(opv(I.o[1])); bool eqOnly = I.callee == "bcmp"; Val r = C(0); unsigned w = I.ty->width();
        if (n) { access(a, n, false); access(b, n, false); for (uint64_t i = n; i-- > 0;) { Obj* oa = access(a, n, false); Val x = loadScalar(oa, a - oa->base + i, 8); Obj* ob = access(b, n, false); Val y = loadScalar(ob, b - ob->base + i, 8); Val e = cmp(O_EQ, 8, x, y); Val diff = eqOnly ? C(1) : ite(cmp(O_ULT, 8, x, y), C(maskw(w)), C(1), w); r = ite(e, r, diff, w); } } set(I, r); break; }
      case N_STRLEN: { uint64_t a = (uint64_t)concretize(opv(I.o[0])), n = 0; for (;;) { Obj* o = access(a + n, 1, false); if (!concretize(loadScalar(o, a + n - o->base, 8))) break; n++; } set(I, C(n)); break; }
      case N_ZERO: if (I.dst >= 0) set(I, C(0)); break;
      // ---- harness interface
      case N_SYM: case N_SYMBOOL: case N_SYMRANGE: { uint32_t ix = (uint32_t)st->inputs.size(); bool bl = I.intrinsic == N_SYMBOOL; i128 slo = 1, shi = 0; if (I.intrinsic == N_SYMRANGE) { slo = sextw(concretize(opv(I.o[0])), 64); shi = sextw(concretize(opv(I.o[1])), 64); if (slo > shi) { R.killed++; throw Kill{}; } if (slo == shi) { st->inputs.push_back(mkConst((u128)slo, 64)); set(I, C((u128)slo & maskw(64))); break; } } E s = symFor(((uint64_t)ix << 8) | (bl ? 1 : 64), bl ? 1 : 64, true, ix, slo, shi); st->inputs.push_back(s); if (ix + 1 > R.symInputs) R.symInputs = ix + 1;
        if (I.intrinsic == N_SYMRANGE && !(slo <= 0 && shi >= 0)) { // the cached model must respect the range (default value 0 does not)
          uint64_t n = (uint64_t)s->k; auto m = newModel(); m->v = st->model->v; if (m->v.size() <= n) m->v.resize(n + 1, 0); m->v[n] = (u128)slo & maskw(64); st->model = m; }
        set(I, fromE(s)); break; }
      case N_CHOOSE: { // concrete choice in [0,n): every alternative is explored on its own path
        uint64_t n = (uint64_t)concretize(opv(I.o[0])); if (!n) throw Kill{}; uint32_t ix = (uint32_t)st->inputs.size(); for (uint64_t k = 1; k < n; k++) { State* o = fork(); E ke = mkConst(k, 64); o->inputs.push_back(ke); State* me = st; Frame* mf = fr; st = o; ownFrame(); set(I, C(k)); next(I); st = me; fr = mf; sliceStep(o, (unsigned)k + 10); pushOther(o); }
        (void)ix; if (ix + 1 > R.symInputs) R.symInputs = ix + 1; st->inputs.push_back(mkConst(0, 64)); ownFrame(); set(I, C(0)); next(I); if (n > 1) { sliceStep(st, 10); checkSelf(); } return; }
      case N_PARAM: { uint64_t i = (uint64_t)concretize(opv(I.o[0])); if (i >= O.params.size()) unsupported("missing harness parameter"); set(I, C((u128)(uint64_t)O.params[i])); break; }
      case N_ASSUME: assume(opv(I.o[0])); break;
      case N_CHECK: { uint64_t p = (uint64_t)concretize(opv(I.o[1])), l = (uint64_t)concretize(opv(I.o[2])); check(opv(I.o[0]), readStr(p, l)); break; }
      case N_COVER: { uint64_t p = (uint64_t)concretize(opv(I.o[0])), l = (uint64_t)concretize(opv(I.o[1])); std::string s = readStr(p, l); if (std::find(st->cov.begin(), st->cov.end(), s) == st->cov.end()) st->cov.push_back(s); break; }
      case N_OBSERVE: st->obs.push_back(opv(I.o[0])); break;
      case N_MAYPANIC: { Val v = opv(I.o[0]); st->mayPanic = concretize(v) != 0; break; }
      case N_NATIVE: set(I, C(0)); break;
      case N_ISCONC: set(I, C(opv(I.o[0]).e ? 0 : 1)); break;
      default: unsupported("call of " + I.callee); }
    next(I); }
  void assume(const Val& v) {
    if (!v.e) { if (!v.c) { R.killed++; throw Kill{}; } return; } E c = v.e; int k = known(c); if (k == 1) return; if (k == 0) { R.killed++; throw Kill{}; }
    if (!evalM(c, *st->model)) { ModelP m; if (query(c, &m) == R_UNSAT) { R.killed++; throw Kill{}; } st->model = m; } addPC(st, c); }
};
} // namespace

JobResult runJob(Module& M, const JobOpts& o) {
  Exec X(M, o);
  try {
    Function* f = M.fn(o.fn); if (!f || f->decl) throw IRError("no such harness: " + o.fn);
    State* s = new State(); s->model = newModel(); X.st = s; X.pushFrame(f, {}); X.st = nullptr; X.work.push_back(s);
    while (!X.work.empty()) { State* n = X.work.back(); X.work.pop_back(); X.run(n); }
  } catch (Stop&) {
  } catch (std::exception& e) { X.R.status = "error"; X.R.reason = e.what(); }
  for (auto& p : X.pool) X.R.samples.push_back(p.second);
  for (auto f : X.fnSeen) X.R.functions.insert(demangleShort(f->name));
  X.R.secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - X.t0).count();
  return X.R;
}
