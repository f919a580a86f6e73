#include "ir.h"
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <set>
#include <functional>
#include <cctype>

static std::map<std::string, Type*> tyCache;
static Type* reg(const std::string& key, std::function<Type*()> f) { auto it = tyCache.find(key); if (it != tyCache.end()) return it->second; Type* t = f(); tyCache[key] = t; return t; }
static uint64_t up(uint64_t x, uint64_t a) { return (x + a - 1) / a * a; }
Type* tyInt(unsigned w) { return reg("i" + std::to_string(w), [&] { auto t = new Type{Type::INT}; t->bits = w; uint64_t s = (w + 7) / 8; uint64_t a = 1; while (a < s && a < 16) a *= 2; t->align = a; t->size = up(s, a); return t; }); }
Type* tyPtr() { return reg("ptr", [&] { auto t = new Type{Type::PTR}; t->bits = 64; t->size = t->align = 8; return t; }); }
static Type* tyFloat(unsigned w) { return reg("f" + std::to_string(w), [&] { auto t = new Type{Type::FLOAT}; t->bits = w; t->size = t->align = w / 8; return t; }); }
static Type* tySimple(Type::K k) { return reg("k" + std::to_string(k), [&] { return new Type{k}; }); }
static std::string tkey(Type* t) { return std::to_string((uintptr_t)t); }
static Type* tyArr(uint64_t n, Type* e) { return reg("a" + std::to_string(n) + "," + tkey(e), [&] { auto t = new Type{Type::ARR}; t->n = n; t->el = e; t->size = n * e->size; t->align = e->align; return t; }); }
static Type* tyVec(uint64_t n, Type* e) { return reg("v" + std::to_string(n) + "," + tkey(e), [&] { auto t = new Type{Type::VEC}; t->n = n; t->el = e; uint64_t bits = n * (e->k == Type::PTR ? 64 : e->bits); t->size = (bits + 7) / 8; uint64_t a = 1; while (a < t->size && a < 64) a *= 2; t->align = a; t->size = up(t->size, a); return t; }); }
static Type* tyStruct(std::vector<Type*> f, bool packed) {
  std::string key = packed ? "P" : "S"; for (auto x : f) key += tkey(x) + ",";
  return reg(key, [&] { auto t = new Type{Type::STRUCT}; t->f = f; t->packed = packed; uint64_t o = 0, al = 1; for (auto x : f) { uint64_t a = packed ? 1 : x->align; o = up(o, a); t->off.push_back(o); o += x->size; al = std::max(al, a); } t->align = al; t->size = up(o, al); return t; });
}

struct Lex {
  std::string_view s; size_t p = 0; Module* M;
  Lex(std::string_view v, Module* m) : s(v), M(m) {}
  void ws() { while (p < s.size()) { char c = s[p]; if (c == ' ' || c == '\t' || c == '\n' || c == '\r') p++; else if (c == ';') { while (p < s.size() && s[p] != '\n') p++; } else break; } }
  bool end() { ws(); return p >= s.size(); }
  char peek() { ws(); return p < s.size() ? s[p] : 0; }
  bool eat(char c) { if (peek() == c) { p++; return true; } return false; }
  void expect(char c) { if (!eat(c)) err(std::string("expected '") + c + "'"); }
  [[noreturn]] void err(const std::string& m) { throw IRError(m + " at: " + std::string(s.substr(p > 40 ? p - 40 : 0, 120))); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  std::string_view peekWord() { ws(); size_t q = p; while (q < s.size() && (isalnum((unsigned char)s[q]) || s[q] == '_' || s[q] == '.')) q++; return s.substr(p, q - p); }
  std::string_view word() { auto w = peekWord(); p += w.size(); return w; }
  bool eatWord(std::string_view w) { if (peekWord() == w) { p += w.size(); return true; } return false; }
  std::string name() { // after sigil
    if (s[p] == '"') { size_t q = s.find('"', p + 1); std::string r(s.substr(p + 1, q - p - 1)); p = q + 1; return r; }
    size_t q = p; while (q < s.size() && idc(s[q])) q++; std::string r(s.substr(p, q - p)); p = q; return r;
  }
  std::string str() { expect('"'); std::string r; while (s[p] != '"') { if (s[p] == '\\') { auto h = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; if (s[p + 1] == '\\') { r += '\\'; p += 2; } else { r += (char)(h(s[p + 1]) * 16 + h(s[p + 2])); p += 3; } } else r += s[p++]; } p++; return r; }
  void skipParens() { expect('('); int d = 1; while (d) { if (p >= s.size()) err("paren"); char c = s[p++]; if (c == '(') d++; else if (c == ')') d--; else if (c == '"') { while (s[p] != '"') p++; p++; } } }
  uint64_t num() { ws(); uint64_t v = 0; if (!isdigit((unsigned char)s[p])) err("number"); while (p < s.size() && isdigit((unsigned char)s[p])) v = v * 10 + (s[p++] - '0'); return v; }

  bool isType() { char c = peek(); if (c == '{' || c == '[' || c == '<') return true; if (c == '%') return true; auto w = peekWord(); if (w.empty()) return false; if (w[0] == 'i' && w.size() > 1 && isdigit((unsigned char)w[1])) return true; return w == "ptr" || w == "void" || w == "float" || w == "double" || w == "half" || w == "metadata" || w == "label"; }
  Type* type() {
    char c = peek();
    if (c == '{') { p++; std::vector<Type*> f; if (!eat('}')) { do f.push_back(type()); while (eat(',')); expect('}'); } return tyStruct(f, false); }
    if (c == '[') { p++; uint64_t n = num(); if (!eatWord("x")) err("x"); Type* e = type(); expect(']'); return tyArr(n, e); }
    if (c == '<') { p++; if (eat('{')) { std::vector<Type*> f; if (!eat('}')) { do f.push_back(type()); while (eat(',')); expect('}'); } expect('>'); return tyStruct(f, true); }
      uint64_t n = num(); if (!eatWord("x")) err("x"); Type* e = type(); expect('>'); return tyVec(n, e); }
    if (c == '%') { p++; std::string n = name(); auto it = M->named.find(n); if (it != M->named.end()) return it->second; auto jt = M->namedTypes.find(n); if (jt == M->namedTypes.end()) err("unknown type %" + n); Lex l(jt->second, M); Type* t = l.type(); M->named[n] = t; return t; }
    auto w = word();
    if (w == "ptr") { if (eatWord("addrspace")) skipParens(); return tyPtr(); }
    if (w == "void") return tySimple(Type::VOID);
    if (w == "float") return tyFloat(32);
    if (w == "double") return tyFloat(64);
    if (w == "metadata") return tySimple(Type::META);
    if (w == "label") return tySimple(Type::LABEL);
    if (w.size() > 1 && w[0] == 'i') return tyInt(atoi(std::string(w.substr(1)).c_str()));
    err("type " + std::string(w));
  }
  // parameter / return attributes
  void attrs() {
    for (;;) {
      char c = peek();
      if (c == '#') { p++; num(); continue; }
      if (c == '"') { str(); if (eat('=')) str(); continue; }
      if (!isalpha((unsigned char)c)) return;
      auto w = peekWord();
      static const std::set<std::string_view> A = {"noundef","zeroext","signext","nonnull","noalias","readonly","readnone","writeonly","nocapture","returned","inreg","immarg","nofree","nest","swiftself","allocptr","allocalign","dead_on_unwind","writable","nosync","noext","dead_on_return"};
      static const std::set<std::string_view> AP = {"range","captures","dereferenceable","dereferenceable_or_null","sret","byval","initializes","memory","align","elementtype","nofpclass","preallocated","inalloca","byref","dead_on_return"};
      if (A.count(w) || AP.count(w)) { p += w.size(); if (peek() == '(') skipParens(); else if (w == "align") num(); continue; }
      return;
    }
  }
  Cst* cscalar(Type* t, u128 v) { auto c = new Cst{Cst::SCALAR}; c->ty = t; c->v = v; return c; }
  Cst* constant(Type* t) {
    char c = peek();
    if (c == '@') { p++; auto r = new Cst{Cst::GLOBAL}; r->ty = t; r->name = name(); return r; }
    if ((c == '-' && s.substr(p, 4) != "-inf") || isdigit((unsigned char)c)) {
      if (t->k == Type::FLOAT) {
        if (c == '0' && p + 1 < s.size() && s[p + 1] == 'x') { p += 2; uint64_t v = 0; while (p < s.size() && isxdigit((unsigned char)s[p])) { char h = s[p++]; v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); }
          if (t->bits == 32) { double d; memcpy(&d, &v, 8); float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return cscalar(t, u); } return cscalar(t, v); }
        size_t q = p; while (q < s.size() && (isdigit((unsigned char)s[q]) || strchr("+-.eE", s[q]))) q++; double d = strtod(std::string(s.substr(p, q - p)).c_str(), 0); p = q;
        if (t->bits == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return cscalar(t, u); } uint64_t v; memcpy(&v, &d, 8); return cscalar(t, v); }
      bool neg = false; if (c == '-') { neg = true; p++; } u128 v = 0; while (p < s.size() && isdigit((unsigned char)s[p])) v = v * 10 + (s[p++] - '0'); if (neg) v = 0 - v; return cscalar(t, v & maskw(t->width()));
    }
    if (t->k == Type::FLOAT && c == 'f' && s.substr(p, 3) == "f0x") { p += 3; u128 v = 0; while (p < s.size() && isxdigit((unsigned char)s[p])) { char h = s[p++]; v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } return cscalar(t, v); }
    if (t->k == Type::FLOAT && s.substr(p, 4) == "+inf") { p += 4; return cscalar(t, t->bits == 32 ? 0x7f800000ull : 0x7ff0000000000000ull); }
    if (t->k == Type::FLOAT && s.substr(p, 4) == "-inf") { p += 4; return cscalar(t, t->bits == 32 ? 0xff800000ull : 0xfff0000000000000ull); }
    if (c == 'c' && p + 1 < s.size() && s[p + 1] == '"') { p++; auto r = new Cst{Cst::STR}; r->ty = t; r->bytes = str(); return r; }
    if (c == '{' || c == '[' || c == '<') {
      char cl = c == '{' ? '}' : c == '[' ? ']' : '>'; p++; bool pk = false; if (c == '<' && peek() == '{') { p++; pk = true; cl = '}'; }
      auto r = new Cst{Cst::AGG}; r->ty = t; if (!eat(cl)) { do { Type* et = type(); r->el.push_back(constant(et)); } while (eat(',')); expect(cl); } if (pk) expect('>'); return r;
    }
    auto w = word();
    if (w == "true") return cscalar(t, 1);
    if (w == "false") return cscalar(t, 0);
    if (w == "null") return cscalar(t, 0);
    if (w == "zeroinitializer" || w == "none") { auto r = new Cst{Cst::ZERO}; r->ty = t; return r; }
    if (w == "undef" || w == "poison") { auto r = new Cst{Cst::UNDEF}; r->ty = t; return r; }
    if (w == "splat") { expect('('); Type* et = type(); Cst* e = constant(et); expect(')'); auto r = new Cst{Cst::AGG}; r->ty = t; for (uint64_t i = 0; i < t->n; i++) r->el.push_back(e); return r; }
    if (w == "getelementptr") { for (;;) { if (eatWord("inbounds") || eatWord("nuw") || eatWord("nusw")) continue; if (peekWord() == "inrange") { word(); skipParens(); continue; } break; }
      expect('('); auto r = new Cst{Cst::GEPC}; r->ty = t; r->gty = type(); while (eat(',')) { Type* et = type(); r->el.push_back(constant(et)); } expect(')'); return r; }
    if (w == "inttoptr" || w == "ptrtoint" || w == "bitcast" || w == "trunc" || w == "zext" || w == "addrspacecast" || w == "ptrtoaddr") { expect('('); Type* st = type(); Cst* e = constant(st); if (!eatWord("to")) err("to"); type(); expect(')'); auto r = new Cst{Cst::CAST}; r->ty = t; r->op = w; r->el.push_back(e); return r; }
    if (w == "add" || w == "sub" || w == "xor" || w == "mul") { while (eatWord("nuw") || eatWord("nsw")) {} expect('('); Type* st = type(); Cst* a = constant(st); expect(','); Type* st2 = type(); Cst* b = constant(st2); expect(')'); auto r = new Cst{Cst::CAST}; r->ty = t; r->op = w; r->el = {a, b}; return r; }
    err("constant '" + std::string(w) + "'");
  }
};

Function* Module::fn(const std::string& n) { auto it = fns.find(n); if (it == fns.end()) { auto a = aliases.find(n); if (a != aliases.end()) return fn(a->second); return nullptr; } return it->second; }

void Module::load(const std::string& path) {
  std::ifstream in(path, std::ios::binary); if (!in) throw IRError("cannot read " + path);
  std::stringstream ss; ss << in.rdbuf(); text = ss.str();
  std::string_view T(text); size_t p = 0;
  while (p < T.size()) {
    size_t e = T.find('\n', p); if (e == std::string_view::npos) e = T.size();
    std::string_view line = T.substr(p, e - p);
    if (line.rfind("define", 0) == 0 || line.rfind("declare", 0) == 0) {
      bool def = line[2] == 'f'; auto f = new Function();
      size_t at = line.find('@'); Lex l(line, this); l.p = at + 1; f->name = l.name(); f->header = line; f->decl = !def;
      if (def) { size_t close = T.find("\n}", e); f->body = T.substr(e + 1, close - e); e = close + 2; }
      auto& slot = fns[f->name]; if (!slot || slot->decl) slot = f;
    } else if (!line.empty() && line[0] == '@') {
      Lex l(line, this); l.p = 1; std::string n = l.name(); l.expect('=');
      auto g = new Global(); g->name = n; bool isAlias = false;
      for (;;) { l.ws(); auto w = l.peekWord();
        if (w == "global" || w == "constant") { g->constant = w == "constant"; l.word(); break; }
        if (w == "alias") { isAlias = true; break; }
        if (w.empty()) l.err("global");
        if (w == "external" || w == "extern_weak") g->external = true;
        if (w == "thread_local") g->tls = true;
        l.word(); if (l.peek() == '(') l.skipParens(); }
      if (isAlias) { size_t q = line.rfind('@'); Lex l2(line, this); l2.p = q + 1; aliases[n] = l2.name(); }
      else { g->ty = l.type(); l.ws(); g->init = line.substr(l.p); size_t q = line.rfind(", align "); if (q != std::string_view::npos) g->align = strtoull(line.data() + q + 8, 0, 10); globals[n] = g; }
    } else if (!line.empty() && line[0] == '%') {
      Lex l(line, this); l.p = 1; std::string n = l.name(); l.expect('='); l.word(); l.ws(); namedTypes[n] = line.substr(l.p);
    }
    p = e + 1;
  }
}
void Module::parseInit(Global* g) {
  if (g->initParsed) return; g->initParsed = true; if (g->external) return;
  Lex l(g->init, this); g->cinit = l.constant(g->ty);
}

static const std::map<std::string_view, uint8_t> BIN = {{"add", O_ADD}, {"sub", O_SUB}, {"mul", O_MUL}, {"udiv", O_UDIV}, {"sdiv", O_SDIV}, {"urem", O_UREM}, {"srem", O_SREM}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}, {"shl", O_SHL}, {"lshr", O_LSHR}, {"ashr", O_ASHR}, {"fadd", O_FADD}, {"fsub", O_FSUB}, {"fmul", O_FMUL}, {"fdiv", O_FDIV}, {"frem", O_FREM}};
static const std::map<std::string_view, uint8_t> CAST = {{"trunc", C_TRUNC}, {"zext", C_ZEXT}, {"sext", C_SEXT}, {"ptrtoint", C_PTRTOINT}, {"ptrtoaddr", C_PTRTOINT}, {"inttoptr", C_INTTOPTR}, {"bitcast", C_BITCAST}, {"fptosi", C_FPTOSI}, {"fptoui", C_FPTOUI}, {"sitofp", C_SITOFP}, {"uitofp", C_UITOFP}, {"fpext", C_FPEXT}, {"fptrunc", C_FPTRUNC}};
static const std::map<std::string_view, uint8_t> PRED = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};

struct FnParser {
  Module* M; Function* f; std::unordered_map<std::string, int> regs; std::unordered_map<std::string, int> bbs;
  int regOf(const std::string& n) { auto it = regs.find(n); if (it != regs.end()) return it->second; int r = f->nregs++; regs[n] = r; return r; }
  Opd value(Lex& l, Type* t) { Opd o; o.ty = t; l.ws(); if (t->k == Type::META) { // skip metadata operand
      int d = 0; while (l.p < l.s.size()) { char c = l.s[l.p]; if (c == '(' ) d++; if (c == ')') { if (!d) break; d--; } if (c == ',' && !d) break; l.p++; } return o; }
    if (l.peek() == '%') { l.p++; o.reg = regOf(l.name()); return o; } if (l.eatWord("asm")) l.err("inline asm"); o.c = l.constant(t); return o; }
  Opd tvalue(Lex& l) { Type* t = l.type(); l.attrs(); return value(l, t); }
  uint32_t label(Lex& l) { if (!l.eatWord("label")) l.err("label"); l.expect('%'); std::string n = l.name(); auto it = bbs.find(n); if (it == bbs.end()) l.err("no block " + n); return it->second; }

  void run() {
    // header: parameters
    { Lex l(f->header, M); size_t at = f->header.find('@'); l.p = at + 1; l.name(); l.expect('(');
      if (!l.eat(')')) { do { if (l.peek() == '.') { l.p += 3; f->varargs = true; break; } Type* t = l.type(); l.attrs(); f->ptypes.push_back(t); if (l.peek() == '%') { l.p++; f->pregs.push_back(regOf(l.name())); } else f->pregs.push_back(f->nregs++); } while (l.eat(',')); l.expect(')'); } }
    if (f->decl) return;
    // pass 1: split into logical lines and find the labels
    std::vector<std::string_view> lines; std::string_view B = f->body; size_t p = 0;
    std::vector<std::pair<int, std::string>> labels; bool anyLabelFirst = false;
    while (p < B.size()) { size_t e = B.find('\n', p); if (e == std::string_view::npos) e = B.size(); auto ln = B.substr(p, e - p); p = e + 1;
      if (ln.empty() || ln == "}") continue;
      if (ln[0] != ' ' && ln[0] != '\t') { // label
        if (ln[0] == ';') continue; Lex l(ln, M); std::string n = l.name(); labels.push_back({(int)lines.size(), n}); if (lines.empty()) anyLabelFirst = true; continue; }
      size_t q = ln.find_first_not_of(" \t"); auto body = ln.substr(q); if (body.rfind("#dbg", 0) == 0) continue;
      // continuation lines
      if (q > 2 || body[0] == ']') { auto& last = lines.back(); last = std::string_view(last.data(), body.data() + body.size() - last.data()); continue; }
      lines.push_back(body); }
    if (!anyLabelFirst) labels.insert(labels.begin(), {0, std::to_string(f->pregs.size())});
    f->blocks.resize(labels.size()); for (size_t i = 0; i < labels.size(); i++) { f->blocks[i].name = labels[i].second; bbs[labels[i].second] = (int)i; }
    for (size_t b = 0; b < labels.size(); b++) { int lo = labels[b].first, hi = b + 1 < labels.size() ? labels[b + 1].first : (int)lines.size();
      for (int i = lo; i < hi; i++) { Instr in; try { parse(lines[i], in); } catch (IRError& e) { throw IRError(std::string(e.what()) + " in " + f->name + ": " + std::string(lines[i].substr(0, 160))); } f->blocks[b].ins.push_back(std::move(in)); } }
  }
  void parse(std::string_view ln, Instr& I) {
    Lex l(ln, M); I.text = std::string(ln.substr(0, 200));
    if (l.peek() == '%') { l.p++; I.dst = regOf(l.name()); l.expect('='); }
    auto w = l.word();
    auto flags = [&] { for (;;) { auto x = l.peekWord(); if (x == "nuw" || x == "nsw" || x == "exact" || x == "disjoint" || x == "nneg" || x == "samesign" || x == "fast" || x == "nnan" || x == "ninf" || x == "nsz" || x == "arcp" || x == "contract" || x == "afn" || x == "reassoc" || x == "inbounds" || x == "nusw" || x == "volatile" || x == "atomic") l.word(); else if (x == "inrange") { l.word(); l.skipParens(); } else break; } };
    if (auto it = BIN.find(w); it != BIN.end()) { flags(); I.op = I_BIN; I.sub = it->second; I.ty = l.type(); I.o.push_back(value(l, I.ty)); l.expect(','); I.o.push_back(value(l, I.ty)); return; }
    if (auto it = CAST.find(w); it != CAST.end()) { flags(); I.op = I_CAST; I.sub = it->second; Opd o = tvalue(l); I.o.push_back(o); if (!l.eatWord("to")) l.err("to"); I.ty = l.type(); return; }
    if (w == "icmp") { flags(); I.op = I_ICMP; I.sub = PRED.at(l.word()); I.ty = l.type(); I.o.push_back(value(l, I.ty)); l.expect(','); I.o.push_back(value(l, I.ty)); return; }
    if (w == "fcmp") { flags(); I.op = I_FCMP; I.callee = std::string(l.word()); I.ty = l.type(); I.o.push_back(value(l, I.ty)); l.expect(','); I.o.push_back(value(l, I.ty)); return; }
    if (w == "fneg") { flags(); I.op = I_FNEG; I.ty = l.type(); I.o.push_back(value(l, I.ty)); return; }
    if (w == "br") { if (l.peekWord() == "label") { I.op = I_BR; I.idx.push_back(label(l)); } else { I.op = I_CBR; I.o.push_back(tvalue(l)); l.expect(','); I.idx.push_back(label(l)); l.expect(','); I.idx.push_back(label(l)); } return; }
    if (w == "switch") { I.op = I_SWITCH; I.o.push_back(tvalue(l)); l.expect(','); I.idx.push_back(label(l)); l.expect('['); while (!l.eat(']')) { Type* t = l.type(); Cst* c = l.constant(t); l.expect(','); I.cases.push_back(c->v); I.idx.push_back(label(l)); } return; }
    if (w == "ret") { I.op = I_RET; I.ty = l.type(); if (I.ty->k != Type::VOID) I.o.push_back(value(l, I.ty)); return; }
    if (w == "unreachable") { I.op = I_UNREACHABLE; return; }
    if (w == "phi") { flags(); I.op = I_PHI; I.ty = l.type(); do { l.expect('['); I.o.push_back(value(l, I.ty)); l.expect(','); l.expect('%'); std::string n = l.name(); auto it = bbs.find(n); if (it == bbs.end()) l.err("phi block " + n); I.idx.push_back(it->second); l.expect(']'); } while (l.eat(',') && l.peek() != '!'); return; }
    if (w == "select") { flags(); I.op = I_SELECT; I.o.push_back(tvalue(l)); l.expect(','); I.o.push_back(tvalue(l)); I.ty = I.o[1].ty; l.expect(','); I.o.push_back(tvalue(l)); return; }
    if (w == "load") { flags(); I.op = I_LOAD; I.ty = l.type(); l.expect(','); I.o.push_back(tvalue(l)); return; }
    if (w == "store") { flags(); I.op = I_STORE; I.o.push_back(tvalue(l)); I.ty = I.o[0].ty; l.expect(','); I.o.push_back(tvalue(l)); return; }
    if (w == "getelementptr") { flags(); I.op = I_GEP; Type* t = l.type(); l.expect(','); I.o.push_back(tvalue(l)); bool first = true; Type* cur = t;
      if (I.o[0].ty->k == Type::VEC) l.err("vector gep");
      while (l.eat(',')) { if (l.peek() == '!') break; Opd x = tvalue(l); uint64_t scale = 0; 
        if (first) { scale = cur->size; first = false; }
        else if (cur->k == Type::STRUCT) { if (!x.c) l.err("struct gep"); uint64_t ix = (uint64_t)x.c->v; I.gconst += cur->off.at(ix); cur = cur->f.at(ix); continue; }
        else { scale = cur->el->size; cur = cur->el; }
        if (x.c && x.c->k == Cst::SCALAR) I.gconst += (uint64_t)((int64_t)sextw(x.c->v, x.ty->width()) * (int64_t)scale);
        else if (x.c && x.c->k == Cst::ZERO) {}
        else { I.gscale.push_back({(int)I.o.size(), (int64_t)scale}); I.o.push_back(x); } }
      I.ty = tyPtr(); return; }
    if (w == "alloca") { I.op = I_ALLOCA; if (l.eatWord("inalloca")) {} I.ty2 = l.type(); I.ty = tyPtr(); I.gconst = 1; while (l.eat(',')) { if (l.eatWord("align")) I.cases.push_back(l.num()); else if (l.peek() == '!') break; else { Opd x = tvalue(l); if (!x.c) l.err("dynamic alloca"); I.gconst = (uint64_t)x.c->v; } } return; }
    if (w == "extractvalue") { I.op = I_EXTRACTVALUE; I.o.push_back(tvalue(l)); while (l.eat(',')) { if (l.peek() == '!') break; I.idx.push_back((uint32_t)l.num()); } return; }
    if (w == "insertvalue") { I.op = I_INSERTVALUE; I.o.push_back(tvalue(l)); I.ty = I.o[0].ty; l.expect(','); I.o.push_back(tvalue(l)); while (l.eat(',')) { if (l.peek() == '!') break; I.idx.push_back((uint32_t)l.num()); } return; }
    if (w == "freeze") { I.op = I_FREEZE; I.o.push_back(tvalue(l)); I.ty = I.o[0].ty; return; }
    if (w == "fence") { I.op = I_FENCE; return; }
    if (w == "atomicrmw") { flags(); I.op = I_ATOMICRMW; I.callee = std::string(l.word()); I.o.push_back(tvalue(l)); l.expect(','); I.o.push_back(tvalue(l)); I.ty = I.o[1].ty; return; }
    if (w == "cmpxchg") { l.eatWord("weak"); flags(); I.op = I_CMPXCHG; for (int i = 0; i < 3; i++) { if (i) l.expect(','); I.o.push_back(tvalue(l)); } I.ty = I.o[1].ty; return; }
    if (w == "extractelement") { I.op = I_EXTRACTELT; I.o.push_back(tvalue(l)); l.expect(','); I.o.push_back(tvalue(l)); return; }
    if (w == "insertelement") { I.op = I_INSERTELT; for (int i = 0; i < 3; i++) { if (i) l.expect(','); I.o.push_back(tvalue(l)); } I.ty = I.o[0].ty; return; }
    if (w == "shufflevector") { I.op = I_SHUFFLE; for (int i = 0; i < 3; i++) { if (i) l.expect(','); I.o.push_back(tvalue(l)); } return; }
    if (w == "landingpad" || w == "resume" || w == "cleanuppad" || w == "catchpad") { I.op = I_EH; return; }
    if (w == "tail" || w == "musttail" || w == "notail") w = l.word();
    if (w == "call" || w == "invoke") {
      I.op = I_CALL; I.isInvoke = w == "invoke"; flags();
      while (l.eatWord("fastcc") || l.eatWord("coldcc") || l.eatWord("ccc") || l.eatWord("preserve_mostcc") || l.eatWord("preserve_nonecc")) {}
      l.attrs(); I.ty = l.type(); if (l.peek() == '(') l.skipParens();
      l.ws(); if (l.peek() == '@') { l.p++; I.callee = l.name(); } else if (l.peek() == '%') { I.indirect = true; Opd fp; l.p++; fp.reg = regOf(l.name()); fp.ty = tyPtr(); I.o.push_back(fp); } else if (l.eatWord("asm")) { I.callee = "!asm"; while (l.peek() != '"') l.word(); I.text = "asm"; l.str(); if (l.eat(',')) l.str(); } else { I.indirect = true; Opd fp; fp.ty = tyPtr(); fp.c = l.constant(tyPtr()); I.o.push_back(fp); }
      l.expect('('); if (!l.eat(')')) { do { Type* t = l.type(); l.attrs(); I.o.push_back(value(l, t)); } while (l.eat(',')); l.expect(')'); }
      if (I.isInvoke) { l.attrs(); while (l.peekWord() != "to") { if (l.peek() == '[') { while (!l.eat(']')) l.p++; } else if (l.peek()=='#') l.attrs(); else if (l.word().empty()) l.err("invoke"); } l.word(); I.idx.push_back(label(l)); }
      return; }
    l.err("instruction '" + std::string(w) + "'");
  }
};
void Module::parseFn(Function* f) {
  if (f->parsed) return; f->parsed = true;
  FnParser P{this, f, {}, {}}; P.run();
}
// crude v0 demangling, good enough for reporting which functions were encoded
std::string demangleShort(const std::string& n) {
  if (n.rfind("_R", 0) != 0) return n;
  std::string out; size_t i = 2;
  while (i < n.size()) {
    if (isdigit((unsigned char)n[i]) && n[i] != '0') { size_t j = i; unsigned L = 0; while (j < n.size() && isdigit((unsigned char)n[j]) && L < 1000) L = L * 10 + (n[j++] - '0'); if (j < n.size() && n[j] == '_') j++; if (j + L > n.size()) break; if (!out.empty()) out += "::"; out += n.substr(j, L); i = j + L; }
    else if (n[i] == 's' || n[i] == 'B') { // disambiguator / backref: skip base62 up to '_'
      size_t j = i + 1; while (j < n.size() && isalnum((unsigned char)n[j])) j++; if (j < n.size() && n[j] == '_') i = j + 1; else i++; }
    else i++;
  }
  return out.empty() ? n : out;
}
