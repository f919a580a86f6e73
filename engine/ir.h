// Parser and in-memory form of the LLVM IR that rustc emits.
#pragma once
#include <string>
#include <string_view>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <cstdint>
#include <stdexcept>
#include "expr.h"

struct IRError : std::runtime_error { using std::runtime_error::runtime_error; };

struct Type {
  enum K { VOID, INT, PTR, FLOAT, ARR, VEC, STRUCT, META, FUNC, LABEL } k;
  unsigned bits = 0;                 // INT / FLOAT
  uint64_t n = 0;                    // ARR / VEC
  Type* el = nullptr;
  std::vector<Type*> f; bool packed = false;
  uint64_t size = 0, align = 1;      // allocation size
  std::vector<uint64_t> off;
  bool agg() const { return k == ARR || k == VEC || k == STRUCT; }
  unsigned width() const { return k == PTR ? 64 : bits; }
};

// constant or register operand
struct Cst {                         // parsed constant
  enum K { SCALAR, GLOBAL, AGG, UNDEF, ZERO, STR, GEPC, CAST } k; Type* ty = nullptr;
  u128 v = 0; std::string name; std::vector<Cst*> el; std::string bytes; Type* gty = nullptr; std::string op;
};
struct Opd { int reg = -1; Cst* c = nullptr; Type* ty = nullptr; };

enum IOp : uint8_t { I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACHABLE, I_CALL, I_PHI, I_BIN, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_LOAD, I_STORE,
  I_GEP, I_ALLOCA, I_EXTRACTVALUE, I_INSERTVALUE, I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_FREEZE, I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_FNEG, I_EH };

struct Function;
struct Instr {
  IOp op; uint8_t sub = 0;           // sub: Op for BIN, predicate, cast kind
  int dst = -1; Type* ty = nullptr;  // result / accessed type
  std::vector<Opd> o;
  std::vector<uint32_t> idx;         // extractvalue indices, phi preds, branch targets
  std::vector<u128> cases;           // switch
  std::string callee; Function* fn = nullptr; int intrinsic = -1; bool indirect = false; bool isInvoke = false;
  // precomputed gep: constant part + (operand, scale) pairs
  uint64_t gconst = 0; std::vector<std::pair<int, int64_t>> gscale;
  Type* ty2 = nullptr;
  std::string text;                  // kept for diagnostics
};
enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
enum CastK : uint8_t { C_TRUNC, C_ZEXT, C_SEXT, C_PTRTOINT, C_INTTOPTR, C_BITCAST, C_FPTOSI, C_FPTOUI, C_SITOFP, C_UITOFP, C_FPEXT, C_FPTRUNC };

struct Block { std::string name; std::vector<Instr> ins; };
struct Function {
  std::string name; bool decl = true; bool parsed = false; bool varargs = false;
  std::string_view header, body;
  Type* ret = nullptr; std::vector<Type*> ptypes; std::vector<int> pregs;
  std::vector<Block> blocks; int nregs = 0;
  uint64_t addr = 0;
  bool executed = false; uint64_t calls = 0;
};
struct Global { std::string name; bool constant = false; bool external = false; bool tls = false; Type* ty = nullptr; std::string_view init; Cst* cinit = nullptr; bool initParsed = false; uint64_t align = 1; uint64_t addr = 0; int gid = -1; };

struct Module {
  std::string text;
  std::unordered_map<std::string, Function*> fns;
  std::unordered_map<std::string, Global*> globals;
  std::unordered_map<std::string, std::string> aliases;
  std::unordered_map<std::string, std::string_view> namedTypes;
  std::unordered_map<std::string, Type*> named;
  void load(const std::string& path);
  void parseFn(Function* f);         // lazily parse the body
  void parseInit(Global* g);
  Function* fn(const std::string& n);
};
Type* tyInt(unsigned w); Type* tyPtr();
std::string demangleShort(const std::string& n);
