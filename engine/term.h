// Hash-consed terms: booleans, bounded mathematical integers, reals/tokens, pointers.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <functional>
typedef int64_t i64;
typedef __int128 i128;

enum Kind : uint8_t {
  BTRUE, BFALSE, BVAR, BNOT, BAND,
  BLE,   // ch[0] <= c      (ch[0] = normalised linear base, no constant part, first coefficient > 0)
  BGE,   // ch[0] >= c
  BEQ,   // ch[0] == c
  ICONST, IVAR, ILIN, IMUL, IDIV, IREM, IITE, IBIT,
  FCONST, FTOK, FRAT, FLIN, FITE, FOPQ,
  PPTR, PITE,
  AGG, UNDEFV
};
enum BitOp : uint8_t { OP_WRAP, OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR, OP_MULW, OP_UDIV, OP_UREM, OP_ADDW };

struct T {
  Kind k; uint8_t aux; bool cleaf; uint8_t pad;
  uint32_t id, n; uint32_t leaves;
  uint64_t hash;
  i64 lo, hi, c;
  double d;
  T **ch; i64 *cf; double *df;
  void *low; int loww;       // lowering cache
  uint32_t ep; int epv;      // memo of one implication query
};
static inline bool isBool(const T *t) { return t->k <= BEQ; }
static inline bool isInt(const T *t) { return t->k >= ICONST && t->k <= IBIT; }
static inline bool isFp(const T *t) { return t->k >= FCONST && t->k <= FOPQ; }
static inline bool isPtr(const T *t) { return t->k == PPTR || t->k == PITE; }

extern T *TRUE_, *FALSE_, *UNDEF_;
extern uint64_t nterms; extern void (*termFatal)(const char *);
void termInit();

// integers
T *I(i64 v);
T *mkIVar(const std::string &name, i64 lo, i64 hi);
T *mkAdd(T *a, T *b);
T *mkSub(T *a, T *b);
T *mkMulC(T *a, i64 k);
T *mkMul(T *a, T *b);
T *mkDiv(T *a, T *b);
T *mkRem(T *a, T *b);
T *mkIIte(T *c, T *a, T *b);
T *mkBit(BitOp op, T *a, T *b, int w);
T *mkWrap(T *a, int w);        // to signed w-bit value
T *mkZext(T *a, int w);        // reinterpret signed w-bit value as unsigned
bool cands(T *t, std::vector<i64> &out, size_t cap); // superset of possible values
std::string varName(T *t);
extern std::vector<T*> allVars;

// booleans
T *mkBVar(const std::string &name);
T *mkNot(T *a);
T *mkAnd(T *a, T *b);
T *mkAndN(std::vector<T*> v);
T *mkOr(T *a, T *b);
T *mkOrN(const std::vector<T*> &v);
T *mkBIte(T *c, T *a, T *b);
T *mkEq(T *a, T *b);
T *mkLe(T *a, T *b);
static inline T *mkLt(T *a, T *b) { return mkLe(mkAdd(a, I(1)), b); }
int implies(T *g, T *x);       // 1: g => x, -1: g => !x, 0 unknown (syntactic)
void conjOf(T *g, std::vector<T*> &out);
T *mkConj(const std::vector<T*> &v);  // conjunction of an already canonical subset
// selection conditions that distinguish guards known to be disjoint
void relGuards(const std::vector<T*> &g, std::vector<T*> &out);
T *restrictT(T *v, T *g);      // simplify top-level ites of v assuming g
T *b2i(T *b);
T *i2b(T *i);                  // i != 0

// floating point
T *F(double d);
T *mkTok(T *code, T *scale);
T *mkRat(T *num, T *den);
T *mkFVar(int idx);
T *mkOpq();
T *mkFIte(T *c, T *a, T *b);
T *fAdd(T *a, T *b, bool sub, bool flt);
T *fMul(T *a, T *b, bool flt);
T *fDiv(T *a, T *b, bool flt);
T *fNeg(T *a);
T *fCmp(int pred, T *a, T *b); // pred: LLVM FCmp predicate (ordered treated like unordered: no NaN)
T *fLinMake(const std::vector<std::pair<int,double>> &v, double c);

// pointers
T *mkPtr(int obj, T *off);
T *mkPIte(T *c, T *a, T *b);
T *ptrAdd(T *p, T *off);
T *mkAgg(const std::vector<T*> &v);
T *mkIteAny(T *c, T *a, T *b);

// concrete evaluation under an assignment of IVAR/BVAR (by id)
struct Eval {
  std::function<i64(T*)> var;
  std::vector<i64> memo; std::vector<char> have;
  i64 ev(T *t);
};
std::string show(T *t, int depth = 4);
