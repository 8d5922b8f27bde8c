// Expression DAG for the symbolic executor: hash-consed bit-vector terms
// (floating point values are carried as their IEEE bit patterns).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class K : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Not, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, ZExt, SExt, Extract, Concat,
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRnd,
  FOeq, FOlt, FOle, FUno,
  FToSI, FToUI, SIToF, UIToF, FCvt,
  UF
};

struct Expr {
  K k;
  uint8_t nops;
  uint16_t w;
  uint32_t aux;      // Var: index, Extract: offset, FRnd: mode, UF: function id
  uint32_t id;
  uint32_t depth;
  Expr* a[3];
  u128 c;
  const std::vector<uint32_t>* vars;  // sorted variable set
  void* z3;          // bit-vector (or bool for w==1) form
  void* z3b;         // other form
  void* z3f;         // fp form
  uint64_t evgen;
  u128 ev;
  bool isConst() const { return k == K::Const; }
};

static inline u128 maskw(unsigned w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
static inline u128 truncw(u128 v, unsigned w) { return v & maskw(w); }
static inline s128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  v &= maskw(w);
  if ((v >> (w - 1)) & 1) v |= ~maskw(w);
  return (s128)v;
}

// factories (all simplify)
Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(uint32_t index);  // 8-bit variable
Expr* mkBin(K k, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
bool exprBelow(Expr* e, uint64_t n);   // its value is structurally in [0, n)
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkFBin(K k, Expr* a, Expr* b);
Expr* mkFUn(K k, Expr* a, unsigned w, unsigned aux = 0);
Expr* mkUF(uint32_t fn, Expr* a, Expr* b, unsigned w);
static inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(K::And, a, b); }
static inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(K::Or, a, b); }
static inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(K::Eq, a, b); }
static inline Expr* mkTrue() { return mkConst(1, 1); }
static inline Expr* mkFalse() { return mkConst(0, 1); }

// uninterpreted functions with a host meaning
enum UFId { UF_EXP, UF_LOG, UF_POW, UF_SIN, UF_COS, UF_LOG10, UF_COUNT };
u128 ufHost(uint32_t fn, u128 a, u128 b, unsigned w);
u128 foldOp(K k, unsigned w, unsigned aux, unsigned aw, u128 a, u128 b, u128 c);

// variable bookkeeping
struct VarInfo { std::string buf; uint32_t index; };
uint32_t varIndex(const std::string& buf, uint32_t index);
extern std::vector<VarInfo> g_vars;

typedef std::vector<uint8_t> Model;   // indexed by variable
u128 evalExpr(Expr* e, const Model& m, uint64_t gen);
uint64_t nextEvalGen();
std::string exprToString(Expr* e, int depth = 6);
size_t exprCount();
