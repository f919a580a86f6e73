// Hash-consed bit-vector expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_SYM,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // floating point (operands are IEEE bit patterns, width 32 or 64)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM,
  O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FROUND /* k = mode: 0 rne 1 rna 2 up 3 down 4 zero */,
  O_NOPS
};

struct Expr {
  Op op; uint16_t w; uint32_t id;
  uint16_t ites;            // longest chain of if-then-else nodes below (and including) this one
  const Expr *a, *b, *c;
  u128 k;                   // constant value / symbol number / extract low bit
  i128 lo, hi;              // conservative signed range of the value
  mutable void* z3;         // cached bit-vector translation
  mutable void* z3i;        // cached integer translation
  mutable int8_t noInt;     // 0 unknown, 1 translatable to integers, 2 not
  mutable uint32_t epoch;   // evaluation memo
  mutable u128 val;
  mutable uint32_t mark;
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 wmax(unsigned w) { return (i128)maskw(w - 1); }
inline i128 wmin(unsigned w) { return -wmax(w) - 1; }
inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

E mkConst(u128 v, unsigned w);
E mkSym(unsigned w, uint64_t num);          // hash-consed by number
E mk(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, u128 k = 0); // simplifying constructor
E mkNot(E a);                                // w == 1
inline E mkBin(Op op, E a, E b) { return mk(op, (op >= O_EQ && op <= O_SLE) || (op>=O_FEQ && op<=O_FUNO) ? 1 : a->w, a, b); }
inline bool isC(E e) { return e->op == O_CONST; }
inline bool isTrue(E e) { return e->op == O_CONST && e->w == 1 && e->k == 1; }
inline bool isFalse(E e) { return e->op == O_CONST && e->w == 1 && e->k == 0; }
u128 foldOp(Op op, unsigned w, unsigned aw, u128 a, u128 b, u128 c, u128 k, bool& ok);
size_t exprCount();

struct SymInfo { unsigned w; bool input; uint32_t idx; i128 lo, hi; };
extern std::vector<SymInfo> g_syms;          // by symbol number

struct Model { uint32_t epoch; std::vector<u128> v; };
typedef std::shared_ptr<Model> ModelP;
ModelP newModel();
u128 evalM(E e, const Model& m);             // symbols beyond v.size() are 0
std::string u128str(u128 v);
std::string exprStr(E e, int depth = 6);
