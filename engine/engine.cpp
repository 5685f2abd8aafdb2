// Guarded, merging symbolic execution of LLVM IR (bounded model checking), with SPMD ranks as coroutines.
#include "term.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::pair;

// ------------------------------------------------------------------ globals
static std::unique_ptr<Module> Mod; static const DataLayout *DL;
static map<string, long> params;
static double t0wall; static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static uint64_t steps = 0; static double wallLimit = 800; static bool verbose = false;
static bool keepGoing = false; static bool brFeas = true, valFeas = true;
static uint64_t constAsserts = 0;
static void leave(int rc);
[[noreturn]] static void fatal(const string &m) { fprintf(stderr, "ENGINE-ERROR %s\n", m.c_str()); fflush(stderr); leave(4); _exit(4); }
static vector<string> callStack[64];

// ------------------------------------------------------------------ violations
struct Viol { T *cond; string kind, msg, where; int rank; };
static vector<Viol> viols; static uint64_t violChecks = 0;
static map<string, vector<T*>> covers;
static T *assumeAll; // conjunction is asserted in solver; kept for evaluation
static vector<T*> assumes;
struct Closeness { T *g; T *diff; double eps; string msg; int rank; };
static vector<Closeness> closes;
static int curRank();
static string where();
static void violate(T *cond, const string &kind, const string &msg) {
  violChecks++;
  if (cond == FALSE_) { constAsserts++; return; }
  viols.push_back({cond, kind, msg, where(), curRank()});
}

// ------------------------------------------------------------------ model pool: cheap satisfiability witnesses
struct PModel { std::unordered_map<T*, i64> v; Eval E; uint64_t seed; };
static vector<PModel*> pool; static const size_t POOLMAX = 64; static uint64_t poolSeed = 1, poolHits = 0; static std::unordered_set<T*> infeas; static int quickMs = 20000;
static void poolAdd() {
  PModel *m = new PModel; m->seed = poolSeed += 0x9e3779b97f4a7c15ull;
  for (T *t : allVars) if (modelHas(t)) m->v[t] = modelVal(t);
  m->E.var = [m](T *t) -> i64 { auto it = m->v.find(t); if (it != m->v.end()) return it->second;
    uint64_t h = (m->seed ^ (uint64_t)t->id * 0xff51afd7ed558ccdull); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    i64 r = t->k == BVAR ? (i64)(h & 1) : t->lo + (i64)(h % (uint64_t)(t->hi - t->lo + 1)); m->v[t] = r; return r; };
  pool.insert(pool.begin(), m); if (pool.size() > POOLMAX) { delete pool.back(); pool.pop_back(); }
}
static bool poolSat(T *g) { for (size_t i = 0; i < pool.size(); i++) if (pool[i]->E.ev(g)) { if (i > 8) std::swap(pool[i], pool[i / 2]); poolHits++; return true; } return false; }
static void poolAssume(T *h) { size_t k = 0; for (auto *m : pool) if (m->E.ev(h)) pool[k++] = m; else delete m; pool.resize(k); }
// 1 feasible, 0 infeasible, -1 unknown
static int feas(T *g, int ms) {
  if (g == TRUE_) return 1; if (g == FALSE_) return 0;
  if (infeas.count(g)) return 0; if (poolSat(g)) return 1;
  stats.feas++; int sv = gTimeoutMs; gTimeoutMs = ms; int r = solverCheck(g, true); gTimeoutMs = sv;
  if (r == 1) poolAdd(); else if (r == 0) infeas.insert(g);
  return r;
}
static bool infeasibleQuick(T *g) { return feas(g, quickMs) == 0; }
// all values of v feasible under g (complete), at most cap; false if not determined
static bool valuesOf(T *v, T *g, size_t cap, vector<i64> &out) {
  std::set<i64> s; for (auto *m : pool) if (m->E.ev(g)) s.insert(m->E.ev(v));
  if (s.size() > cap) return false;
  vector<T*> c; c.push_back(g); for (i64 x : s) c.push_back(mkNot(mkEq(v, I(x))));
  for (;;) {
    T *q = mkAndN(c); if (q == FALSE_) break;
    if (infeas.count(q)) break;
    stats.feas++; int sv = gTimeoutMs; gTimeoutMs = quickMs; int r = solverCheck(q, true); gTimeoutMs = sv;
    if (r < 0) return false; if (r == 0) { infeas.insert(q); break; }
    poolAdd(); i64 x = pool[0]->E.ev(v); if (!s.insert(x).second) fatal("valuesOf"); if (s.size() > cap) return false;
    c.push_back(mkNot(mkEq(v, I(x))));
  }
  out.assign(s.begin(), s.end()); return true;
}
// ------------------------------------------------------------------ memory
struct Cell { T *v = nullptr; int32_t sz = 0; };  // sz<0: continuation at distance -sz granules
enum OK_ { O_NULL, O_WILD, O_HEAP, O_STACK, O_GLOBAL, O_FN };
struct Obj { int id; OK_ kind; T *size; i64 maxsize; T *freed; T *allocg; int rank; int gran; vector<Cell> cells; Function *fn; string name; bool zero; bool ro; uint64_t seq; };
static vector<Obj*> objs;
static Obj *newObj(OK_ k, T *size, i64 maxsize, T *g, const string &name) {
  Obj *o = new Obj; o->id = objs.size(); o->kind = k; o->size = size; o->maxsize = maxsize; o->freed = FALSE_; o->allocg = g; o->rank = curRank(); o->gran = 4; o->fn = nullptr; o->name = name; o->zero = false; o->ro = false; o->seq = steps;
  objs.push_back(o); return o;
}
static map<Function*, int> fnObj;
static T *fnPtr(Function *f) {
  auto it = fnObj.find(f); if (it == fnObj.end()) { Obj *o = newObj(O_FN, I(1), 1, TRUE_, f->getName().str()); o->fn = f; it = fnObj.emplace(f, o->id).first; }
  return mkPtr(it->second, I(0));
}
static map<pair<GlobalVariable*, int>, int> gvObj;
static T *POISON_TOK; static const i64 POISON_INT = (i64)(int32_t)0xD4D4D4D4;

static void regran(Obj *o, int g) {
  if (o->gran == g) return;
  if (g > o->gran) fatal("regran");
  vector<Cell> n; int f = o->gran / g; n.resize(o->cells.size() * f);
  for (size_t i = 0; i < o->cells.size(); i++) if (o->cells[i].sz > 0) {
    n[i * f] = o->cells[i]; int cnt = o->cells[i].sz / g; for (int j = 1; j < cnt; j++) n[i * f + j].sz = -j;
  }
  o->cells.swap(n); o->gran = g;
}
static inline void ensure(Obj *o, i64 off, int size) {
  if (o->gran > 1 && ((off % o->gran) || (size % o->gran))) regran(o, 1);
  size_t need = (off + size + o->gran - 1) / o->gran; if (o->cells.size() < need) o->cells.resize(std::max(need, o->cells.size() * 2));
}
// convert a value to the representation needed for a typed read
static T *conv(T *v, Type *ty);
static T *conv(T *v, Type *ty) {
  if (!ty) return v;
  if (ty->isFloatingPointTy()) {
    if (isInt(v)) { if (v->k == ICONST) { if (ty->isDoubleTy()) { double d; i64 c = v->c; memcpy(&d, &c, 8); return F(d); } float f; int32_t c = (int32_t)v->c; memcpy(&f, &c, 4); return F(f); } return POISON_TOK; }
    return v;
  }
  if (ty->isPointerTy()) { if (v->k == ICONST) return v->c == 0 ? mkPtr(0, I(0)) : mkPtr(1, I(0)); return v; }
  if (ty->isIntegerTy()) {
    if (v->k == FCONST) { if (DL->getTypeStoreSize(ty) == 8) { i64 c; memcpy(&c, &v->d, 8); return I(c); } float f = v->d; int32_t c; memcpy(&c, &f, 4); return I(c); }
    if (ty->isIntegerTy(1) && isInt(v)) return i2b(v);
    if (isFp(v) && DL->getTypeStoreSize(ty) <= 4) return I(POISON_INT);
    return v;
  }
  return v;
}
static T *poisonFor(Type *ty) {
  if (!ty) return nullptr;
  if (ty->isFloatingPointTy()) return POISON_TOK;
  if (ty->isPointerTy()) return mkPtr(1, I(0));
  if (ty->isIntegerTy()) { int w = ty->getIntegerBitWidth(); if (w == 1) return TRUE_; if (w == 64) return I((i64)0xD4D4D4D4D4D4D4D4ull); if (w == 8) return I((int8_t)0xD4); if (w == 16) return I((int16_t)0xD4D4); return I(POISON_INT); }
  return nullptr;
}
static T *poisonLike(T *v) { return isFp(v) ? POISON_TOK : isPtr(v) ? mkPtr(1, I(0)) : isBool(v) ? TRUE_ : I(POISON_INT); }
// raw read of one concrete location; returns nullptr if (partly) uninitialised
static T *readCell(Obj *o, i64 off, int size, Type *ty) {
  if (o->gran > 1 && ((off % o->gran) || (size % o->gran))) regran(o, 1);
  size_t i = off / o->gran;
  if (i < o->cells.size() && o->cells[i].sz == size) return conv(o->cells[i].v, ty);
  bool any = false; size_t e = i + size / o->gran;
  for (size_t j = i; j < e && j < o->cells.size(); j++) if (o->cells[j].sz) any = true;
  if (!any) { if (o->zero) return conv(I(0), ty); return nullptr; }
  // composite: gather bytes / pieces
  vector<T*> pieces; vector<int> psz; bool allc = true;
  for (size_t j = i; j < e;) {
    if (j >= o->cells.size() || o->cells[j].sz == 0) { if (!o->zero) return nullptr; pieces.push_back(I(0)); psz.push_back(o->gran); j++; continue; }
    Cell &c = o->cells[j];
    if (c.sz < 0 || (i64)(j * o->gran + c.sz) > off + size) {
      // part of a larger cell: only constants can be split
      size_t b = c.sz < 0 ? j + c.sz : j; Cell &m = o->cells[b]; T *mv = m.v;
      if (mv->k == FCONST && m.sz == 8) { i64 x; memcpy(&x, &mv->d, 8); mv = I(x); }
      if (mv->k == PPTR && mv->c == 0) mv = I(0);
      if (mv->k != ICONST) {
        if (isFp(mv)) { pieces.push_back(POISON_TOK); psz.push_back(o->gran); j++; allc = false; continue; }
        fatal("partial read of symbolic cell in " + o->name + " at " + where());
      }
      i64 sh = (i64)(j - b) * o->gran * 8; uint64_t x = (uint64_t)mv->c >> sh; if (o->gran < 8) x &= (1ull << (o->gran * 8)) - 1;
      pieces.push_back(mkWrap(I((i64)x), o->gran * 8)); psz.push_back(o->gran); j++; continue;
    }
    pieces.push_back(c.v); psz.push_back(c.sz); if (c.v->k != ICONST) allc = false; j += c.sz / o->gran;
  }
  if (ty && ty->isVectorTy() && pieces.size() == 2) return mkAgg(pieces);
  if (pieces.size() == 1) return conv(pieces[0], ty);
  if (allc && size <= 8) {
    uint64_t x = 0; int sh = 0;
    for (size_t q = 0; q < pieces.size(); q++) { uint64_t m = psz[q] >= 8 ? ~0ull : (1ull << (psz[q] * 8)) - 1; x |= ((uint64_t)pieces[q]->c & m) << sh; sh += psz[q] * 8; }
    return conv(mkWrap(I((i64)x), size * 8), ty);
  }
  if (pieces.size() == 2 && psz[0] == 4 && psz[1] == 4 && isInt(pieces[0]) && isInt(pieces[1])) { // i64 made of two i32
    return mkAgg(pieces);
  }
  if (pieces.size() == 2 && psz[0] == 4 && psz[1] == 4) return mkAgg(pieces);  // opaque pair (struct copy), split again on store
  if (ty && ty->isFloatingPointTy()) return POISON_TOK;
  fatal("composite read in " + o->name + " at " + where());
}
static void writeCell(Obj *o, i64 off, int size, T *v) {
  if (v->k == AGG) { int n = v->n, s = size / n; for (int q = 0; q < n; q++) writeCell(o, off + q * s, s, v->ch[q]); return; }
  ensure(o, off, size);
  size_t i = off / o->gran, e = i + size / o->gran;
  Cell &c = o->cells[i];
  if (c.sz == size) { c.v = v; return; }
  // destroy overlapping cells
  for (size_t j = i; j < e; j++) {
    Cell &d = o->cells[j]; if (!d.sz) continue;
    size_t b = d.sz < 0 ? j + d.sz : j; Cell m = o->cells[b]; size_t n = m.sz / o->gran;
    bool inside = b >= i && b + n <= e;
    T *mv = m.v; uint64_t bits = 0; bool split = false;
    if (!inside) {
      if (mv->k == FCONST && m.sz == 8) { memcpy(&bits, &mv->d, 8); split = true; }
      else if (mv->k == ICONST) { bits = (uint64_t)mv->c; split = true; }
      else if (mv->k == PPTR && mv->c == 0) { bits = 0; split = true; }
      else if (isFp(mv)) split = false;
      else fatal("partial overwrite of symbolic cell in " + o->name + " at " + where());
    }
    for (size_t q = 0; q < n; q++) {
      Cell &x = o->cells[b + q];
      if (inside) { x.sz = 0; x.v = nullptr; }
      else { x.sz = o->gran; uint64_t y = bits >> (q * o->gran * 8); x.v = split ? mkWrap(I((i64)(o->gran < 8 ? (y & ((1ull << (o->gran * 8)) - 1)) : y)), o->gran * 8) : POISON_TOK; }
    }
  }
  for (size_t j = i; j < e; j++) { o->cells[j].sz = 0; o->cells[j].v = nullptr; }
  o->cells[i].v = v; o->cells[i].sz = size;
  for (size_t j = i + 1; j < e; j++) o->cells[j].sz = -(int)(j - i);
}
static void leavesOf(T *p, T *g, vector<pair<T*, T*>> &out) {   // (guard, PPTR)
  if (g == FALSE_) return;
  if (p->k == PPTR) { out.push_back({g, p}); return; }
  if (p->k == PITE) { leavesOf(p->ch[1], mkAnd(g, p->ch[0]), out); leavesOf(p->ch[2], mkAnd(g, mkNot(p->ch[0])), out); return; }
  if (p->k == UNDEFV) { out.push_back({g, mkPtr(1, I(0))}); return; }
  if (p->k == ICONST) { out.push_back({g, mkPtr(p->c == 0 ? 0 : 1, I(0))}); return; }
  fatal("not a pointer: " + show(p) + " at " + where());
}
// returns false if the access is definitely invalid
static bool checkAccess(Obj *o, T *off, int size, T *g, bool wr) {
  if (o->kind == O_NULL) { violate(g, "memory", wr ? "write through null pointer" : "read through null pointer"); return false; }
  if (o->kind == O_WILD) { violate(g, "memory", wr ? "write through uninitialised pointer" : "read through uninitialised pointer"); return false; }
  if (o->kind == O_FN) { violate(g, "memory", "data access to function"); return false; }
  T *bad = mkOr(mkLt(off, I(0)), mkLt(o->size, mkAdd(off, I(size))));
  T *b = mkAnd(g, bad);
  violate(b, "memory", string(wr ? "out-of-bounds write to " : "out-of-bounds read of ") + o->name);
  if (o->freed != FALSE_) {
    T *f = mkAnd(g, o->freed); violate(f, "memory", string(wr ? "write to freed " : "read of freed ") + o->name); if (f == g) return false;
  }
  if (wr && o->ro) { violate(g, "memory", "write to constant"); return false; }
  return b != g;
}
static bool candOffsets(Obj *o, T *off, int size, vector<i64> &cs, T *g) {
  if (valFeas && valuesOf(off, g, 256, cs)) { size_t k = 0; for (i64 v : cs) if (v >= 0 && v + size <= o->maxsize) cs[k++] = v; cs.resize(k); return true; }
  if (!cands(off, cs, 20000)) {
    // bounded by object size
    i64 st = 1; if (off->k == ILIN) { i64 gg = 0; for (uint32_t i = 0; i < off->n; i++) { i64 a = std::abs((long long)off->cf[i]), b = gg; while (a) { i64 t = b % a; b = a; a = t; } gg = b; } st = gg; }
    cs.clear(); i64 base = off->k == ILIN ? ((off->c % st) + st) % st : 0;
    for (i64 v = base; v + size <= o->maxsize; v += st) cs.push_back(v);
  }
  size_t k = 0; for (i64 v : cs) if (v >= 0 && v + size <= o->maxsize) cs[k++] = v; cs.resize(k);
  return true;
}
static uint64_t symLoads = 0, symStores = 0;
static T *loadLeaf(Obj *o, T *off, int size, Type *ty, T *g) {
  if (!checkAccess(o, off, size, g, false)) return nullptr;
  if (off->k == ICONST) {
    if (off->c < 0 || off->c + size > o->maxsize) return nullptr;
    T *v = readCell(o, off->c, size, ty);
    if (!v) {
      if (ty && (ty->isIntegerTy() || ty->isPointerTy())) violate(g, "uninit", "use of uninitialised value from " + o->name);
      return ty ? poisonFor(ty) : nullptr;
    }
    return v;
  }
  symLoads++;
  vector<i64> cs; candOffsets(o, off, size, cs, g);
  // group candidate offsets by value
  vector<pair<T*, T*>> grp; std::unordered_map<T*, size_t> ix; T *un = FALSE_; T *any = nullptr;
  for (i64 c : cs) {
    T *eq = mkEq(off, I(c)); if (eq == FALSE_) continue;
    int im = implies(g, eq); if (im < 0) continue;
    T *v = readCell(o, c, size, ty);
    if (!v) { un = mkOr(un, eq); continue; }
    if (im > 0) return restrictT(v, g);
    any = v; auto it = ix.find(v); if (it == ix.end()) { ix[v] = grp.size(); grp.push_back({eq, v}); } else grp[it->second].first = mkOr(grp[it->second].first, eq);
  }
  if (un != FALSE_) {
    if (ty && (ty->isIntegerTy() || ty->isPointerTy())) violate(mkAnd(g, un), "uninit", "use of uninitialised value from " + o->name);
    T *pv = ty ? poisonFor(ty) : any ? poisonLike(any) : nullptr;
    if (pv) grp.push_back({un, pv});
  }
  if (grp.empty()) return nullptr;
  T *r = grp.back().second;
  for (size_t i = grp.size() - 1; i--;) r = mkIteAny(grp[i].first, grp[i].second, r);
  return r;
}
static T *load(T *p, int size, Type *ty, T *g) {
  if (p->k == PPTR && p->ch[0]->k == ICONST) { // fast path
    Obj *o = objs[p->c];
    if (o->kind >= O_HEAP && o->kind <= O_GLOBAL && o->freed == FALSE_ && o->size->k == ICONST) {
      i64 off = p->ch[0]->c;
      if (off >= 0 && off + size <= o->size->c) { T *v = readCell(o, off, size, ty); if (v) { violChecks++; constAsserts++; return restrictT(v, g); } }
    }
  }
  p = restrictT(p, g);
  vector<pair<T*, T*>> ls; leavesOf(p, g, ls);
  vector<T*> gs; vector<T*> vs;
  for (auto &l : ls) {
    T *v = loadLeaf(objs[l.second->c], restrictT(l.second->ch[0], l.first), size, ty, l.first);
    if (v) { gs.push_back(l.first); vs.push_back(v); }
  }
  if (vs.empty()) return ty ? (poisonFor(ty) ? poisonFor(ty) : UNDEF_) : nullptr;
  vector<T*> rel; relGuards(gs, rel);
  T *r = vs.back(); for (size_t i = vs.size() - 1; i--;) r = mkIteAny(rel[i], vs[i], r);
  return restrictT(r, g);
}
static void storeLeaf(Obj *o, T *off, int size, T *v, T *g) {
  if (!checkAccess(o, off, size, g, true)) return;
  if (off->k == ICONST) {
    if (off->c < 0 || off->c + size > o->maxsize) return;
    if (g == TRUE_ || g == o->allocg) { writeCell(o, off->c, size, v); return; }
    if (v->k == AGG) { int n = v->n, s = size / n; for (int q = 0; q < n; q++) storeLeaf(o, I(off->c + q * s), s, v->ch[q], g); return; }
    T *old = readCell(o, off->c, size, nullptr);
    if (!old) old = poisonLike(v);
    if (old->k == AGG) fatal("guarded overwrite of composite at " + where());
    if (isInt(old) && isFp(v)) old = old->k == ICONST && old->c == 0 ? F(0) : POISON_TOK;
    else if (isFp(old) && !isFp(v)) old = poisonLike(v);
    else if (isInt(old) && isPtr(v)) old = conv(old, PointerType::get(Mod->getContext(), 0));
    else if (isPtr(old) && isInt(v)) { if (v->k == ICONST && v->c == 0) v = mkPtr(0, I(0)); else old = poisonLike(v); }
    writeCell(o, off->c, size, mkIteAny(g, v, old)); return;
  }
  symStores++;
  vector<i64> cs; candOffsets(o, off, size, cs, g);
  for (i64 c : cs) {
    T *eq = mkEq(off, I(c)); if (eq == FALSE_) continue;
    T *gg = mkAnd(g, eq); if (gg == FALSE_) continue;
    // value guard: if g is the object's own guard only eq matters
    T *old = readCell(o, c, size, nullptr);
    if (!old) old = poisonLike(v);
    if (old->k == AGG) fatal("symbolic overwrite of composite at " + where());
    T *vv = v;
    if (isInt(old) && isFp(vv)) old = old->k == ICONST && old->c == 0 ? F(0) : POISON_TOK;
    else if (isFp(old) && !isFp(vv)) old = poisonLike(vv);
    else if (isInt(old) && isPtr(vv)) old = conv(old, PointerType::get(Mod->getContext(), 0));
    else if (isPtr(old) && isInt(vv)) { if (vv->k == ICONST && vv->c == 0) vv = mkPtr(0, I(0)); else old = poisonLike(vv); }
    writeCell(o, c, size, mkIteAny(gg, restrictT(vv, gg), old));
  }
}
static void store(T *p, int size, T *v, T *g) {
  if (g == FALSE_) return;
  if (v->k == UNDEFV) return;
  p = restrictT(p, g);
  vector<pair<T*, T*>> ls; leavesOf(p, g, ls);
  for (auto &l : ls) storeLeaf(objs[l.second->c], restrictT(l.second->ch[0], l.first), size, v, l.first);
}
static int elemGran(T *p) {
  if (p->k == PITE) return std::min(elemGran(p->ch[1]), elemGran(p->ch[2]));
  if (p->k != PPTR) return 8;
  Obj *o = objs[p->c]; T *off = p->ch[0];
  if (o->kind < O_HEAP || o->kind == O_FN) return 8;
  size_t i = off->k == ICONST && off->c >= 0 ? off->c / o->gran : 0;
  for (; i < o->cells.size(); i++) if (o->cells[i].sz > 0) return o->cells[i].sz;
  for (i = 0; i < o->cells.size(); i++) if (o->cells[i].sz > 0) return o->cells[i].sz;
  return 8;
}
static int alignOf(T *len) { // largest power of two <=8 dividing every value
  i64 g = 0; auto add = [&](i64 x) { if (x < 0) x = -x; while (x) { i64 t = g % x; g = x; x = t; } };
  if (len->k == ICONST) add(len->c); else if (len->k == ILIN) { add(len->c); for (uint32_t i = 0; i < len->n; i++) add(len->cf[i]); } else if (len->k == IITE) { g = alignOf(len->ch[1]); add(alignOf(len->ch[2])); } else return 1;
  for (int a : {8, 4, 2}) if (g % a == 0) return a; return 1;
}
static int ptrAlign(T *p) { if (p->k == PITE) return std::min(ptrAlign(p->ch[1]), ptrAlign(p->ch[2])); if (p->k == PPTR) return p->ch[0]->k == ICONST && p->ch[0]->c == 0 ? 8 : alignOf(p->ch[0]); return 8; }
static void doMemcpy(T *d, T *s, T *len, T *g) {
  len = restrictT(len, g); d = restrictT(d, g); s = restrictT(s, g);
  if (len->k == ICONST && len->c == 0) return;
  violate(mkAnd(g, mkLt(len, I(0))), "memory", "memcpy with negative length");
  if (len->k == ICONST && s->k == PPTR && d->k == PPTR && s->ch[0]->k == ICONST && d->ch[0]->k == ICONST) {
    Obj *a = objs[s->c], *b = objs[d->c]; i64 so = s->ch[0]->c, dof = d->ch[0]->c, n = len->c;
    bool ok = checkAccess(a, s->ch[0], n, g, false); ok = checkAccess(b, d->ch[0], n, g, true) && ok;
    if (!ok) return;
    // copy cell by cell
    vector<std::tuple<i64, int, T*>> tmp;
    for (i64 x = 0; x < n;) {
      if (so + x < 0 || so + x >= a->maxsize) break;
      int gr = a->gran; if ((so + x) % gr) { regran(a, 1); gr = 1; }
      size_t i = (so + x) / gr;
      if (i < a->cells.size() && a->cells[i].sz > 0 && x + a->cells[i].sz <= n) { tmp.push_back({x, a->cells[i].sz, a->cells[i].v}); x += a->cells[i].sz; }
      else { int sz = gr; if (x + sz > n) { regran(a, 1); sz = 1; } T *v = readCell(a, so + x, sz, nullptr); if (v) tmp.push_back({x, sz, v}); x += sz; }
    }
    for (auto &e : tmp) { i64 x = std::get<0>(e); if (dof + x >= 0 && dof + x + std::get<1>(e) <= b->maxsize) storeLeaf(b, I(dof + x), std::get<1>(e), std::get<2>(e), g); }
    return;
  }
  int gr0 = std::min(alignOf(len), ptrAlign(d));
  i64 mx = len->hi; if (mx > 1 << 20) { // bound by objects
    vector<pair<T*, T*>> ls; leavesOf(d, g, ls); i64 m = 0; for (auto &l : ls) m = std::max(m, objs[l.second->c]->maxsize); mx = std::min(mx, m); violate(mkAnd(g, mkLt(I(mx), len)), "memory", "memcpy longer than destination"); }
  vector<pair<T*, T*>> sl; leavesOf(s, g, sl); struct Piece { i64 x; int gr; T *g, *v; }; vector<Piece> ps;
  for (auto &l : sl) { if (sl.size() > 1 && infeasibleQuick(l.first)) continue; int gr = std::min(gr0, std::min(elemGran(l.second), ptrAlign(l.second))); for (i64 x = 0; x + gr <= mx; x += gr) {
    T *gg = mkAnd(l.first, mkLe(I(x + gr), len)); if (gg == FALSE_) break;
    ps.push_back({x, gr, gg, load(ptrAdd(l.second, I(x)), gr, nullptr, gg)});
  } }
  for (auto &p : ps) if (p.v) store(ptrAdd(d, I(p.x)), p.gr, p.v, p.g);
  else { vector<pair<T*, T*>> ls; leavesOf(ptrAdd(d, I(p.x)), p.g, ls); for (auto &l : ls) checkAccess(objs[l.second->c], l.second->ch[0], p.gr, l.first, true); }
}
static void doMemset(T *d, T *val, T *len, T *g) {
  if (len->k == ICONST && len->c == 0) return;
  if (val->k != ICONST) fatal("memset value");
  uint8_t b = (uint8_t)val->c; i64 mx = len->hi; int gr = std::min(alignOf(len), ptrAlign(d)); if (gr > 4) gr = 4;
  if (d->k == PPTR && objs[d->c]->kind >= O_HEAP && objs[d->c]->kind <= O_GLOBAL) gr = std::min(gr, std::max(objs[d->c]->gran, 1));
  uint32_t w = b * 0x01010101u; i64 v = gr == 4 ? (i64)(int32_t)w : gr == 2 ? (i64)(int16_t)w : (i64)(int8_t)b;
  for (i64 x = 0; x < mx; x += gr) { T *gg = mkAnd(g, mkLe(I(x + gr), len)); if (gg == FALSE_) break; store(ptrAdd(d, I(x)), gr, I(v), gg); }
}

// ------------------------------------------------------------------ constants / globals
static T *constVal(const Constant *c, int rank);
static void initGlobal(Obj *o, i64 off, const Constant *c, int rank) {
  Type *ty = c->getType();
  if (isa<ConstantAggregateZero>(c)) { return; }
  if (isa<UndefValue>(c)) return;
  if (auto *ca = dyn_cast<ConstantArray>(c)) { i64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + i * es, ca->getOperand(i), rank); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(o, off + (i64)sl->getElementOffset(i), cs->getOperand(i), rank); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { i64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initGlobal(o, off + i * es, cd->getElementAsConstant(i), rank); return; }
  writeCell(o, off, DL->getTypeStoreSize(ty), constVal(c, rank));
}
static T *globalPtr(GlobalVariable *gv, int rank) {
  bool shared = gv->isConstant() || gv->getName().starts_with("vp_");
  auto key = std::make_pair(gv, shared ? -1 : rank);
  auto it = gvObj.find(key);
  if (it == gvObj.end()) {
    i64 sz = DL->getTypeAllocSize(gv->getValueType());
    Obj *o = newObj(O_GLOBAL, I(sz), sz, TRUE_, "global " + gv->getName().str()); o->zero = true;
    gvObj[key] = o->id;
    if (gv->hasInitializer()) initGlobal(o, 0, gv->getInitializer(), rank);
    o->ro = gv->isConstant();
    it = gvObj.find(key);
  }
  return mkPtr(it->second, I(0));
}
static T *gepConst(const GEPOperator *g, int rank);
static T *constVal(const Constant *c, int rank) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() == 1) return ci->isZero() ? FALSE_ : TRUE_; if (ci->getBitWidth() > 64) fatal("wide int"); return I(ci->getSExtValue()); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APFloat f = cf->getValueAPF(); bool li; if (&f.getSemantics() == &APFloat::IEEEsingle()) return F(f.convertToFloat()); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return F(f.convertToDouble()); }
  if (isa<ConstantPointerNull>(c)) return mkPtr(0, I(0));
  if (isa<UndefValue>(c)) return UNDEF_;
  if (auto *gv = dyn_cast<GlobalVariable>(c)) return globalPtr(const_cast<GlobalVariable*>(gv), rank);
  if (auto *f = dyn_cast<Function>(c)) return fnPtr(const_cast<Function*>(f));
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), rank);
  if (auto *g = dyn_cast<GEPOperator>(c)) return gepConst(g, rank);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) { if (ce->isCast()) return constVal(ce->getOperand(0), rank); }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantDataSequential>(c) || isa<ConstantVector>(c) || isa<ConstantArray>(c)) {
    Type *ty = c->getType(); unsigned n = ty->isStructTy() ? ty->getStructNumElements() : isa<FixedVectorType>(ty) ? cast<FixedVectorType>(ty)->getNumElements() : ty->getArrayNumElements();
    vector<T*> v; for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i), rank)); return mkAgg(v);
  }
  string s; raw_string_ostream os(s); c->print(os); fatal("constant " + s);
}
static T *gepConst(const GEPOperator *g, int rank) {
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) fatal("gep const");
  return ptrAdd(constVal(cast<Constant>(g->getPointerOperand()), rank), I(off.getSExtValue()));
}

// ------------------------------------------------------------------ function decoding
struct Op { int slot; T *c; Constant *gc; };   // slot>=0, or c, or gc (rank dependent)
struct Ins { unsigned opc; Instruction *in; int dst; vector<Op> ops; int size; Type *ty; int w; bool nsw, flt; i64 gepc; vector<pair<int, i64>> gep; Function *callee; int intr; int succ[2]; };
struct Blk { BasicBlock *bb; int order; vector<PHINode*> phis; vector<int> phiSlot; vector<Ins> ins; map<int, vector<Op>> phiIn; bool header; };
struct FnInfo { Function *f; string name; int nslots; vector<Blk> blks; vector<int> argSlot; uint64_t calls = 0; bool fromRepo; vector<int> allocas; };
static std::unordered_map<Function*, FnInfo*> fns;
static std::unordered_map<string, int> intrIds; static vector<string> intrNames;
static int intrId(const string &n) { auto it = intrIds.find(n); return it == intrIds.end() ? -1 : it->second; }

static void orderBlocks(Function &F, LoopInfo &LI, vector<BasicBlock*> &out) {
  // hierarchical topological order, loops contiguous
  std::function<void(Loop*, BasicBlock*, vector<BasicBlock*>&)> go = [&](Loop *L, BasicBlock *entry, vector<BasicBlock*> &o) {
    auto nodeOf = [&](BasicBlock *b) -> void* { // block itself or child loop of L containing b, or null if outside L
      if (L && !L->contains(b)) return nullptr;
      Loop *x = LI.getLoopFor(b); if (x == L) return (void*)b;
      while (x && x->getParentLoop() != L) x = x->getParentLoop();
      return x ? (void*)((uintptr_t)x | 1) : nullptr;
    };
    vector<void*> post; std::set<void*> seen;
    std::function<void(void*)> dfs = [&](void *n) {
      if (!seen.insert(n).second) return;
      vector<BasicBlock*> bs; if ((uintptr_t)n & 1) { Loop *x = (Loop*)((uintptr_t)n & ~(uintptr_t)1); for (auto *b : x->blocks()) bs.push_back(b); } else bs.push_back((BasicBlock*)n);
      for (auto *b : bs) for (auto *s : successors(b)) {
        if (L && s == L->getHeader()) continue;
        void *m = nodeOf(s); if (!m || m == n) continue; dfs(m);
      }
      post.push_back(n);
    };
    dfs(nodeOf(entry));
    for (size_t i = post.size(); i--;) {
      if ((uintptr_t)post[i] & 1) { Loop *x = (Loop*)((uintptr_t)post[i] & ~(uintptr_t)1); go(x, x->getHeader(), o); }
      else o.push_back((BasicBlock*)post[i]);
    }
  };
  go(nullptr, &F.getEntryBlock(), out);
}
static FnInfo *fnInfo(Function *f) {
  auto it = fns.find(f); if (it != fns.end()) return it->second;
  FnInfo *fi = new FnInfo; fi->f = f; fi->name = demangle(f->getName().str()); fns[f] = fi;
  fi->fromRepo = f->hasFnAttribute("vp-repo") || (fi->name.find("FFTMPI_NS") != string::npos);
  DominatorTree DT(*f); LoopInfo LI(DT);
  vector<BasicBlock*> ord; orderBlocks(*f, LI, ord);
  std::unordered_map<BasicBlock*, int> bi; for (size_t i = 0; i < ord.size(); i++) bi[ord[i]] = i;
  std::unordered_map<Value*, int> slot; int ns = 0;
  for (auto &a : f->args()) { slot[&a] = ns; fi->argSlot.push_back(ns++); }
  for (auto *b : ord) for (auto &i : *b) if (!i.getType()->isVoidTy()) slot[&i] = ns++;
  fi->nslots = ns;
  auto mkop = [&](Value *v) -> Op {
    Op o{-1, nullptr, nullptr};
    auto it = slot.find(v); if (it != slot.end()) { o.slot = it->second; return o; }
    if (auto *c = dyn_cast<Constant>(v)) {
      bool dep = isa<GlobalVariable>(c) || isa<GEPOperator>(c) || isa<ConstantExpr>(c) || isa<ConstantAggregate>(c);
      if (dep) o.gc = c; else o.c = constVal(c, 0);
      return o;
    }
    if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v)) return o;
    o.c = UNDEF_; return o;
  };
  fi->blks.resize(ord.size());
  for (size_t b = 0; b < ord.size(); b++) {
    Blk &B = fi->blks[b]; B.bb = ord[b]; B.order = b; B.header = LI.isLoopHeader(ord[b]);
    for (auto &in : *ord[b]) {
      if (auto *ph = dyn_cast<PHINode>(&in)) {
        B.phis.push_back(ph); B.phiSlot.push_back(slot[ph]);
        continue;
      }
      Ins x; x.opc = in.getOpcode(); x.in = &in; x.dst = in.getType()->isVoidTy() ? -1 : slot[&in]; x.size = 0; x.ty = in.getType(); x.w = 0; x.nsw = false; x.flt = false; x.gepc = 0; x.callee = nullptr; x.intr = -1; x.succ[0] = x.succ[1] = -1;
      if (isa<CallBase>(in)) {
        auto &cb = cast<CallBase>(in); if (isa<DbgInfoIntrinsic>(in)) continue;
        for (auto &a : cb.args()) x.ops.push_back(mkop(a));
        Value *cv = cb.getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) { x.callee = cf; if (cf->isDeclaration()) { string nm = cf->getName().str(); x.intr = intrId(nm); if (x.intr < 0 && nm.rfind("llvm.", 0) == 0) { string base = nm.substr(0, nm.find('.', 5)); x.intr = intrId(base); } } }
        else x.ops.push_back(mkop(cv));
        B.ins.push_back(x); continue;
      }
      for (auto &o : in.operands()) x.ops.push_back(mkop(o));
      if (in.getType()->isIntegerTy()) x.w = in.getType()->getIntegerBitWidth();
      if (in.getType()->isFloatTy()) x.flt = true;
      if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&in)) x.nsw = ob->hasNoSignedWrap();
      if (auto *ld = dyn_cast<LoadInst>(&in)) x.size = DL->getTypeStoreSize(ld->getType());
      if (auto *st = dyn_cast<StoreInst>(&in)) { x.ty = st->getValueOperand()->getType(); x.size = DL->getTypeStoreSize(x.ty); }
      if (auto *al = dyn_cast<AllocaInst>(&in)) x.size = DL->getTypeAllocSize(al->getAllocatedType());
      if (auto *ic = dyn_cast<ICmpInst>(&in)) { Type *t = ic->getOperand(0)->getType(); x.w = t->isIntegerTy() ? t->getIntegerBitWidth() : 0; }
      if (auto *ci = dyn_cast<CastInst>(&in)) { Type *t = ci->getSrcTy(); x.size = t->isIntegerTy() ? t->getIntegerBitWidth() : 0; }
      if (auto *gp = dyn_cast<GetElementPtrInst>(&in)) {
        unsigned oi = 1;
        for (gep_type_iterator gi = gep_type_begin(gp), ge = gep_type_end(gp); gi != ge; ++gi, ++oi) {
          if (StructType *st = gi.getStructTypeOrNull()) { unsigned fno = cast<ConstantInt>(gi.getOperand())->getZExtValue(); x.gepc += DL->getStructLayout(st)->getElementOffset(fno); }
          else { i64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *c = dyn_cast<ConstantInt>(gi.getOperand())) x.gepc += c->getSExtValue() * sc; else x.gep.push_back({(int)oi, sc}); }
        }
      }
      if (auto *br = dyn_cast<BranchInst>(&in)) for (unsigned s = 0; s < br->getNumSuccessors(); s++) x.succ[s] = bi[br->getSuccessor(s)];
      B.ins.push_back(x);
    }
  }
  for (size_t b = 0; b < ord.size(); b++) {
    Blk &B = fi->blks[b];
    if (!B.phis.empty()) for (auto *p : predecessors(B.bb)) { if (!bi.count(p)) continue; vector<Op> v; for (auto *ph : B.phis) v.push_back(mkop(ph->getIncomingValueForBlock(p))); B.phiIn[bi[p]] = v; }
  }
  return fi;
}

// ------------------------------------------------------------------ ranks
struct Rank { uint64_t prog = 0; int id; ucontext_t ctx; bool done = true; bool blocked = false; T *bcond = nullptr, *bguard = nullptr; T *exited = nullptr, *exzero = nullptr; bool lazy = false, force = false, bsplit = false; string bwhere; char *stk = nullptr; };
static Rank ranks[64]; static int nranks = 0, cur = -1; static ucontext_t schedCtx; static T *haltCond = nullptr;
static T *runFnPtr, *runArg, *runGuard;
static int curRank() { return cur; }
static vector<string> &cstk() { return callStack[cur + 1]; }
static string where() { auto &s = callStack[cur + 1]; string r; int n = 0; for (size_t i = s.size(); i-- && n < 3; n++) r += (n ? " < " : "") + s[i]; return r; }

struct Ret { T *v; T *g; };
static T *splitBool(T *c); static T *splitDiv(T *a, T *b, bool flt); static T *splitInt(T *v);
static Ret callFn(Function *f, vector<T*> &args, T *g);
static Ret callPtr(T *fp, vector<T*> &args, T *g) {
  vector<pair<T*, T*>> ls; leavesOf(restrictT(fp, g), g, ls);
  vector<T*> gs, vs; T *rg = FALSE_; bool same = true;
  for (auto &l : ls) {
    Obj *o = objs[l.second->c];
    if (o->kind != O_FN) { violate(l.first, "memory", "call through bad function pointer"); same = false; continue; }
    Ret r = callFn(o->fn, args, l.first);
    if (r.g != l.first) same = false;
    rg = mkOr(rg, r.g); gs.push_back(l.first); vs.push_back(r.v);
  }
  if (same) rg = g;
  if (vs.empty()) return {nullptr, FALSE_};
  vector<T*> rel; relGuards(gs, rel); T *r = vs.back();
  for (size_t i = vs.size() - 1; i--;) if (vs[i] && r) r = mkIteAny(rel[i], vs[i], r); else if (vs[i]) r = vs[i];
  return {r, rg};
}
static void yieldRank() { Rank &r = ranks[cur]; swapcontext(&r.ctx, &schedCtx); }

struct SymRec { string name; int rank; T *g; T *v; };
static vector<SymRec> syms; static vector<pair<string, i64>> choices;
static string cstr(T *p) {
  string s; vector<pair<T*, T*>> ls; leavesOf(p, TRUE_, ls); if (ls.empty()) return s;
  Obj *o = objs[ls[0].second->c]; i64 off = ls[0].second->ch[0]->c;
  for (;; off++) { T *v = readCell(o, off, 1, nullptr); if (!v || v->k != ICONST || v->c == 0) break; s += (char)v->c; }
  return s;
}
static T *heapAlloc(T *size, T *g, const string &nm) {
  if (size->lo < 0) violate(mkAnd(g, mkLt(size, I(0))), "memory", "allocation of negative size");
  i64 mx = size->hi; if (mx < 0) mx = 0; if (mx > (i64)1 << 26) { vector<i64> cs; mx = (i64)1 << 26; }
  Obj *o = newObj(O_HEAP, size, mx, g, nm + "#" + std::to_string(objs.size()) + " in " + (cstk().empty() ? "" : cstk().back()));
  return mkPtr(o->id, I(0));
}
static T *doFree(T *p, T *g) {
  vector<pair<T*, T*>> ls; leavesOf(restrictT(p, g), g, ls);
  for (auto &l : ls) {
    Obj *o = objs[l.second->c]; if (o->kind == O_NULL) continue;
    if (o->kind != O_HEAP) { violate(l.first, "memory", "free of non-heap memory " + o->name); continue; }
    violate(mkAnd(l.first, mkNot(mkEq(l.second->ch[0], I(0)))), "memory", "free of interior pointer of " + o->name);
    violate(mkAnd(l.first, o->freed), "memory", "double free of " + o->name);
    o->freed = mkOr(o->freed, l.first);
    if (o->freed == o->allocg) o->freed = TRUE_;
  }
  return g;
}
static bool feasible(T *g) { int r = feas(g, gTimeoutMs); if (r < 0) fatal("solver unknown in feasibility check"); return r == 1; }
static T *fpToInt(T *a) {
  if (a->k == FCONST) return I((i64)a->d);
  if (a->k == FRAT) return mkDiv(a->ch[0], a->ch[1]);
  if (a->k == FITE) return mkIIte(a->ch[0], fpToInt(a->ch[1]), fpToInt(a->ch[2]));
  fatal("fptosi of opaque at " + where());
}
static T *tokCode(T *a) {
  if (a->k == FTOK) return a->ch[0];
  if (a->k == FITE) return mkIIte(a->ch[0], tokCode(a->ch[1]), tokCode(a->ch[2]));
  return I(-1);
}
static T *tokScale(T *a) {
  if (a->k == FTOK) return a->ch[1];
  if (a->k == FITE) return mkFIte(a->ch[0], tokScale(a->ch[1]), tokScale(a->ch[2]));
  return F(-1);
}
static uint64_t nAssume = 0, nAssert = 0;
static Ret intrinsic(const string &n, Ins &x, vector<T*> &a, T *g);

static void rankMain() {
  Rank &r = ranks[cur]; vector<T*> args{I(r.id), runArg};
  callPtr(runFnPtr, args, runGuard);
  r.done = true; r.blocked = false;
  swapcontext(&r.ctx, &schedCtx);
}
static void runRanks(int P, T *fp, T *arg, T *g) {
  if (cur != -1) fatal("nested vp_run_ranks"); if (P > 60) fatal("too many ranks");
  nranks = P; runFnPtr = fp; runArg = arg; runGuard = g;
  static const size_t SS = (size_t)512 << 20;
  for (int i = 0; i < P; i++) {
    Rank &r = ranks[i]; r.id = i; r.done = false; r.blocked = false; r.force = false; r.bcond = r.bguard = nullptr; if (!r.exited) r.exited = FALSE_; if (!r.exzero) r.exzero = FALSE_;
    callStack[i + 1].clear();
    if (!r.stk) r.stk = (char*)mmap(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&r.ctx); r.ctx.uc_stack.ss_sp = r.stk; r.ctx.uc_stack.ss_size = SS; r.ctx.uc_link = &schedCtx; makecontext(&r.ctx, (void(*)())rankMain, 0);
  }
  for (;;) {
    bool progress = false, alldone = true;
    for (int i = 0; i < P; i++) {
      Rank &r = ranks[i]; if (r.done) continue; alldone = false;
      if (r.blocked && r.lazy) continue;
      bool was = r.blocked; uint64_t op = r.prog; T *ob = r.bcond, *og = r.bguard;
      cur = i; r.blocked = false; swapcontext(&schedCtx, &r.ctx); cur = -1;
      if (!(r.blocked && was && r.prog == op && r.bcond == ob && r.bguard == og)) progress = true;
    }
    if (alldone) break;
    if (progress) continue;
    // only lazily blocked ranks can move now: wake all of them once
    bool woke = false;
    for (int i = 0; i < P; i++) { Rank &r = ranks[i]; if (!r.done && r.blocked && r.lazy) {
      T *ob = r.bcond, *og = r.bguard; uint64_t op = r.prog;
      cur = i; r.blocked = false; r.lazy = false; swapcontext(&schedCtx, &r.ctx); cur = -1;
      if (!(r.blocked && r.prog == op && ob == r.bcond && og == r.bguard) ) woke = true; } }
    if (woke) continue;
    // ask the solver which blocked ranks can proceed
    bool forced = false; vector<T*> stuck;
    for (int i = 0; i < P && !forced; i++) { Rank &r = ranks[i]; if (r.done) continue;
      T *b = mkAnd(r.bguard, mkNot(r.bcond)); if (haltCond != FALSE_) b = mkAnd(b, mkNot(haltCond));
      if (!feasible(b)) { r.force = true; forced = true; cur = i; r.blocked = false; swapcontext(&schedCtx, &r.ctx); cur = -1; } }
    if (forced) continue;
    // deadlock candidate: a scenario in which every rank that is active is blocked
    vector<T*> all, act; string w;
    for (int i = 0; i < P; i++) { Rank &r = ranks[i]; if (r.done) continue; all.push_back(mkNot(mkAnd(r.bguard, r.bcond))); act.push_back(r.bguard); w += " rank" + std::to_string(i) + ":" + r.bwhere; }
    all.push_back(mkOrN(act)); all.push_back(mkNot(haltCond));
    T *d = mkAndN(all);
    if (feasible(d)) { violate(d, "deadlock", "ranks block forever:" + w); break; }
    for (int i = 0; i < P; i++) { Rank &r = ranks[i]; if (!r.done) fprintf(stderr, "  rank %d guard %s cond %s\n", i, show(r.bguard, 6).c_str(), show(r.bcond, 6).c_str()); }
    fatal("scheduler stuck without a common deadlock scenario:" + w);
  }
  cur = -1;
}

// ------------------------------------------------------------------ interpreter
static double lastRep = 0;
static Ret callFn(Function *f, vector<T*> &args, T *g) {
  if (g == FALSE_) return {UNDEF_, FALSE_};
  if (f->isDeclaration()) {
    Ins x; x.callee = f; x.in = nullptr; x.ty = f->getReturnType();
    return intrinsic(f->getName().str(), x, args, g);
  }
  FnInfo *fi = fnInfo(f); fi->calls++;
  auto &cs = cstk(); cs.push_back(fi->name.substr(0, fi->name.find('('))); if (cs.size() > 400) fatal("recursion too deep at " + where());
  vector<T*> S(fi->nslots, nullptr);
  for (size_t i = 0; i < fi->argSlot.size() && i < args.size(); i++) S[fi->argSlot[i]] = args[i];
  struct Edge { T *g; vector<T*> ph; };
  vector<vector<Edge>> pend(fi->blks.size()); std::set<int> act; vector<int> iters(fi->blks.size(), 0);
  T *alive = g; vector<pair<T*, T*>> rets; vector<Obj*> locals; bool retSeen = false;
  pend[0].push_back({g, {}}); act.insert(0);
  int rk = cur;
  auto val = [&](const Op &o) -> T* { if (o.slot >= 0) return S[o.slot]; if (o.c) return o.c; if (o.gc) return constVal(o.gc, rk); return nullptr; };
  while (!act.empty()) {
    int bi = *act.begin(); act.erase(act.begin());
    Blk &B = fi->blks[bi]; vector<Edge> es; es.swap(pend[bi]);
    T *G;
    if (act.empty() && !retSeen) G = alive;
    else { G = es[0].g; for (size_t i = 1; i < es.size(); i++) G = mkOr(G, es[i].g); }
    if (!B.phis.empty()) {
      if (es.size() == 1) { for (size_t p = 0; p < B.phis.size(); p++) S[B.phiSlot[p]] = es[0].ph[p]; }
      else {
        vector<T*> gs, rel; for (auto &e : es) gs.push_back(e.g); relGuards(gs, rel);
        for (size_t p = 0; p < B.phis.size(); p++) {
          T *v = es.back().ph[p];
          for (size_t i = es.size() - 1; i--;) v = mkIteAny(rel[i], es[i].ph[p], v);
          S[B.phiSlot[p]] = v;
        }
      }
    }
    if (B.header) {
      int it = ++iters[bi];
      if (it > 200000 && G != TRUE_ && G != alive) { if (!feasible(G)) continue; }
      if (it > 3000000) { violate(G, "bound", "loop bound exceeded"); fatal("loop bound exceeded in " + where()); }
    }
    bool dead = false;
    auto addEdge = [&](int to, T *eg) {
      if (eg == FALSE_) return;
      Edge e; e.g = eg; Blk &D = fi->blks[to];
      if (!D.phis.empty()) { auto &v = D.phiIn[bi]; for (auto &o : v) { T *x = val(o); if (!x) x = UNDEF_; e.ph.push_back(x); } }
      pend[to].push_back(std::move(e)); act.insert(to);
    };
    for (size_t ii = 0; ii < B.ins.size() && !dead; ii++) {
      Ins &x = B.ins[ii];
      if ((++steps & 0xfff) == 0) {
        double t = nowS();
        if (t - t0wall > wallLimit) fatal("wall limit in execution at " + where());
        if (verbose && t - lastRep > 5) { lastRep = t; fprintf(stderr, "[%.0fs] steps %lu terms %lu viols %zu symld %lu symst %lu rank %d at %s\n", t - t0wall, steps, nterms, viols.size(), symLoads, symStores, cur, where().c_str()); }
      }
      switch (x.opc) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
          T *a = val(x.ops[0]), *b = val(x.ops[1]);
          if (a->k == UNDEFV || b->k == UNDEFV) { S[x.dst] = UNDEF_; break; }
          if (isPtr(a) || isPtr(b)) {
            if (x.opc == Instruction::Sub && isPtr(a) && isPtr(b)) {
              a = restrictT(a, G); b = restrictT(b, G); vector<pair<T*, T*>> la, lb; leavesOf(a, TRUE_, la); leavesOf(b, TRUE_, lb); T *r = nullptr;
              for (auto &p : la) for (auto &q : lb) { T *c = mkAnd(p.first, q.first); if (c == FALSE_) continue; if (p.second->c != q.second->c) { violate(mkAnd(G, c), "memory", "difference of unrelated pointers"); continue; } T *d = mkSub(p.second->ch[0], q.second->ch[0]); r = r ? mkIIte(c, d, r) : d; }
              S[x.dst] = r ? r : I(0); break;
            }
            if (x.opc == Instruction::Add) { S[x.dst] = isPtr(a) ? ptrAdd(a, b) : ptrAdd(b, a); break; }
            if (x.opc == Instruction::Sub && isPtr(a)) { S[x.dst] = ptrAdd(a, mkMulC(b, -1)); break; }
            fatal("pointer arithmetic at " + where());
          }
          if (isBool(a)) a = b2i(a); if (isBool(b)) b = b2i(b);
          T *r;
          if (a->k == ICONST && b->k == ICONST) {
            i128 v = x.opc == Instruction::Add ? (i128)a->c + b->c : x.opc == Instruction::Sub ? (i128)a->c - b->c : (i128)a->c * b->c;
            i128 m = (i128)1 << (x.w - 1);
            if (v < -m || v >= m) { if (x.nsw) violate(G, "overflow", "signed integer overflow"); uint64_t u = (uint64_t)v; if (x.w < 64) { u <<= 64 - x.w; r = I((i64)u >> (64 - x.w)); } else r = I((i64)u); }
            else r = I((i64)v);
            S[x.dst] = r; break;
          }
          r = x.opc == Instruction::Add ? mkAdd(a, b) : x.opc == Instruction::Sub ? mkSub(a, b) : mkMul(a, b);
          if (x.w < 64) {
            i64 m = (i64)1 << (x.w - 1);
            if (r->lo < -m || r->hi >= m) {
              if (x.nsw) violate(mkAnd(G, mkOr(mkLt(r, I(-m)), mkLt(I(m - 1), r))), "overflow", "signed integer overflow");
              else r = mkWrap(r, x.w);
            }
          }
          S[x.dst] = x.w == 1 ? i2b(r) : r; break;
        }
        case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem: {
          T *a = val(x.ops[0]), *b = val(x.ops[1]);
          if (a->k == UNDEFV || b->k == UNDEFV) { S[x.dst] = UNDEF_; break; }
          if (isPtr(a)) { S[x.dst] = I(0); break; }
          if (x.opc == Instruction::UDiv || x.opc == Instruction::URem) { a = mkZext(a, x.w); b = mkZext(b, x.w); }
          T *z = mkAnd(G, mkEq(b, I(0))); violate(z, "div0", "division by zero");
          if (z == G) { S[x.dst] = I(0); break; }
          if (b->k == ICONST && b->c == 0) { S[x.dst] = I(0); break; }
          S[x.dst] = (x.opc == Instruction::SDiv || x.opc == Instruction::UDiv) ? mkDiv(a, b) : mkRem(a, b); break;
        }
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          T *a = val(x.ops[0]), *b = val(x.ops[1]);
          if (a->k == UNDEFV || b->k == UNDEFV) { S[x.dst] = UNDEF_; break; }
          if (x.w == 1) {
            if (isInt(a)) a = i2b(a); if (isInt(b)) b = i2b(b);
            S[x.dst] = x.opc == Instruction::And ? mkAnd(a, b) : x.opc == Instruction::Or ? mkOr(a, b) : mkBIte(a, mkNot(b), b); break;
          }
          if (isPtr(a)) { if (x.opc == Instruction::And && b->k == ICONST) { S[x.dst] = I(0); break; } fatal("bit op on pointer at " + where()); }
          BitOp op = x.opc == Instruction::And ? OP_AND : x.opc == Instruction::Or ? OP_OR : x.opc == Instruction::Xor ? OP_XOR : x.opc == Instruction::Shl ? OP_SHL : x.opc == Instruction::LShr ? OP_LSHR : OP_ASHR;
          S[x.dst] = mkBit(op, a, b, x.w); break;
        }
        case Instruction::ICmp: {
          T *a = val(x.ops[0]), *b = val(x.ops[1]); auto pr = cast<ICmpInst>(x.in)->getPredicate(); T *r = nullptr;
          if (a->k == UNDEFV || b->k == UNDEFV) { violate(G, "uninit", "comparison of undefined value"); S[x.dst] = mkBVar("undef_cmp"); break; }
          if (isPtr(a) || isPtr(b)) {
            if (!isPtr(a)) a = a->k == ICONST && a->c == 0 ? mkPtr(0, I(0)) : mkPtr(1, a); if (!isPtr(b)) b = b->k == ICONST && b->c == 0 ? mkPtr(0, I(0)) : mkPtr(1, b);
            a = restrictT(a, G); b = restrictT(b, G);
            vector<pair<T*, T*>> la, lb; leavesOf(a, TRUE_, la); leavesOf(b, TRUE_, lb); r = FALSE_;
            for (auto &p : la) for (auto &q : lb) {
              T *c = mkAnd(p.first, q.first); if (c == FALSE_) continue; T *e;
              if (p.second->c == q.second->c) {
                T *u = p.second->ch[0], *v = q.second->ch[0];
                switch (pr) { case CmpInst::ICMP_EQ: e = mkEq(u, v); break; case CmpInst::ICMP_NE: e = mkNot(mkEq(u, v)); break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: e = mkLt(u, v); break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: e = mkLe(u, v); break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: e = mkLt(v, u); break; default: e = mkLe(v, u); }
                if (p.second->c == 0) e = (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_UGE) ? TRUE_ : FALSE_;
              } else {
                if (pr == CmpInst::ICMP_EQ) e = FALSE_; else if (pr == CmpInst::ICMP_NE) e = TRUE_;
                else { e = p.second->c < q.second->c ? ((pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE) ? TRUE_ : FALSE_) : ((pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_UGE) ? TRUE_ : FALSE_); }
              }
              r = mkOr(r, mkAnd(c, e));
            }
            S[x.dst] = restrictT(r, G); break;
          }
          if (isBool(a) && isBool(b)) {
            T *xr = mkBIte(a, mkNot(b), b);
            if (pr == CmpInst::ICMP_EQ) { S[x.dst] = mkNot(xr); break; } if (pr == CmpInst::ICMP_NE) { S[x.dst] = xr; break; }
          }
          if (isBool(a)) a = b2i(a); if (isBool(b)) b = b2i(b);
          if (isFp(a) || isFp(b)) fatal("icmp on fp bits at " + where());
          if (CmpInst::isUnsigned(pr) && (a->lo < 0 || b->lo < 0)) { a = mkZext(a, x.w); b = mkZext(b, x.w); }
          switch (pr) {
            case CmpInst::ICMP_EQ: r = mkEq(a, b); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
            case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: r = mkLt(a, b); break; case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: r = mkLe(a, b); break;
            case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: r = mkLt(b, a); break; default: r = mkLe(b, a);
          }
          S[x.dst] = restrictT(r, G); break;
        }
        case Instruction::FCmp: { T *a = val(x.ops[0]), *b = val(x.ops[1]); if (a->k == UNDEFV || b->k == UNDEFV) { S[x.dst] = mkBVar("undef_fcmp"); break; } S[x.dst] = restrictT(fCmp(cast<FCmpInst>(x.in)->getPredicate(), restrictT(a, G), restrictT(b, G)), G); break; }
        case Instruction::FAdd: case Instruction::FSub: { T *a = val(x.ops[0]), *b = val(x.ops[1]); S[x.dst] = a->k == UNDEFV || b->k == UNDEFV ? UNDEF_ : fAdd(a, b, x.opc == Instruction::FSub, x.flt); break; }
        case Instruction::FMul: { T *a = val(x.ops[0]), *b = val(x.ops[1]); S[x.dst] = a->k == UNDEFV || b->k == UNDEFV ? UNDEF_ : fMul(a, b, x.flt); break; }
        case Instruction::FDiv: { T *a = val(x.ops[0]), *b = val(x.ops[1]); if (b->k == FRAT && b->ch[0]->lo <= 0 && b->ch[0]->hi >= 0 && G == TRUE_ && cur >= 0 && ranks[cur].bsplit && (a->k == FRAT || a->k == FCONST)) S[x.dst] = splitDiv(a, b, x.flt);
          else S[x.dst] = a->k == UNDEFV || b->k == UNDEFV ? UNDEF_ : fDiv(a, b, x.flt); break; }
        case Instruction::FNeg: S[x.dst] = fNeg(val(x.ops[0])); break;
        case Instruction::Freeze: S[x.dst] = val(x.ops[0]); break;
        case Instruction::SExt: { T *a = val(x.ops[0]); if (isBool(a)) a = mkIIte(a, I(-1), I(0)); S[x.dst] = a; break; }
        case Instruction::ZExt: { T *a = val(x.ops[0]); if (a->k == UNDEFV) { S[x.dst] = a; break; } if (isBool(a)) a = b2i(a); else if (isInt(a)) a = mkZext(a, x.size); S[x.dst] = a; break; }
        case Instruction::Trunc: {
          T *a = val(x.ops[0]); if (a->k == UNDEFV) { S[x.dst] = a; break; } if (isPtr(a)) fatal("trunc of pointer at " + where()); if (isBool(a)) a = b2i(a);
          if (a->k == AGG) { S[x.dst] = a->ch[0]; break; }
          S[x.dst] = x.w == 1 ? i2b(mkBit(OP_AND, a, I(1), x.size)) : mkWrap(a, x.w); break;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
          T *a = val(x.ops[0]); if (a->k == UNDEFV) { S[x.dst] = a; break; } if (isBool(a)) a = b2i(a); if (x.opc == Instruction::UIToFP) a = mkZext(a, x.size);
          S[x.dst] = a->k == ICONST ? F(x.flt ? (double)(float)a->c : (double)a->c) : mkRat(a, I(1)); break;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
          T *a = val(x.ops[0]); if (a->k == UNDEFV) { S[x.dst] = a; break; } double lim = ldexp(1.0, x.w - 1);
          if (a->k == FCONST && !(a->d < lim && a->d >= -lim)) { violate(G, "ub", "conversion of a floating-point value outside the range of the integer type"); S[x.dst] = I(x.w >= 64 ? INT64_MIN : -(1LL << (x.w - 1))); break; }
          T *v = fpToInt(a); if (isInt(v) && x.w <= 32 && (v->lo < -(1LL << 31) || v->hi >= (1LL << 31))) { violate(mkAnd(G, mkOr(mkLt(v, I(-(1LL << 31))), mkLt(I((1LL << 31) - 1), v))), "ub", "conversion of a floating-point value outside the range of the integer type"); v = mkWrap(v, 32); }
          if (v->k != ICONST && G == TRUE_ && cur >= 0 && ranks[cur].bsplit) v = splitInt(v);
          S[x.dst] = v; break;
        }
        case Instruction::FPTrunc: { T *a = val(x.ops[0]); S[x.dst] = a->k == FCONST ? F((double)(float)a->d) : a; break; }
        case Instruction::FPExt: S[x.dst] = val(x.ops[0]); break;
        case Instruction::PtrToInt: case Instruction::BitCast: S[x.dst] = val(x.ops[0]); break;
        case Instruction::IntToPtr: { T *a = val(x.ops[0]); if (a->k == ICONST) a = a->c == 0 ? mkPtr(0, I(0)) : mkPtr(1, a); S[x.dst] = a; break; }
        case Instruction::Select: {
          T *c = val(x.ops[0]), *a = val(x.ops[1]), *b = val(x.ops[2]);
          if (c->k == UNDEFV) { violate(G, "uninit", "select on undefined value"); c = mkBVar("undef_sel"); }
          c = restrictT(c, G); if (G == TRUE_ && c != TRUE_ && c != FALSE_ && cur >= 0 && ranks[cur].bsplit) c = splitBool(isInt(c) ? i2b(c) : c);
          S[x.dst] = mkIteAny(c, a, b); break;
        }
        case Instruction::Alloca: {
          T *n = val(x.ops[0]); i64 sz = x.size * (n && n->k == ICONST ? n->c : 1);
          T *size = I(sz); if (n && n->k != ICONST && isInt(n)) { size = mkMulC(n, x.size); sz = size->hi; }
          Obj *o = newObj(O_STACK, size, sz, G, "local of " + cs.back()); locals.push_back(o); S[x.dst] = mkPtr(o->id, I(0)); break;
        }
        case Instruction::GetElementPtr: {
          T *p = val(x.ops[0]); if (p->k == UNDEFV) { p = mkPtr(1, I(0)); }
          if (x.gep.empty()) { S[x.dst] = x.gepc ? ptrAdd(p, I(x.gepc)) : p; break; }
          T *off = I(x.gepc); bool und = false;
          for (auto &q : x.gep) { T *ix = val(x.ops[q.first]); if (ix->k == UNDEFV) { und = true; break; } off = mkAdd(off, mkMulC(ix, q.second)); }
          S[x.dst] = und ? mkPtr(1, I(0)) : ptrAdd(p, off); break;
        }
        case Instruction::Load: {
          T *p = val(x.ops[0]); S[x.dst] = load(p, x.size, x.ty, G); break;
        }
        case Instruction::Store: { T *v = val(x.ops[0]); if (isBool(v) && !x.ty->isIntegerTy(1)) v = b2i(v); if (v->k == AGG && x.ty->isStructTy()) {
            auto *sl = DL->getStructLayout(cast<StructType>(x.ty)); for (unsigned q = 0; q < v->n; q++) { Type *et = cast<StructType>(x.ty)->getElementType(q); store(ptrAdd(val(x.ops[1]), I((i64)sl->getElementOffset(q))), DL->getTypeStoreSize(et), v->ch[q], G); } break; }
          store(val(x.ops[1]), x.size, v, G); break; }
        case Instruction::ExtractValue: { T *a = val(x.ops[0]); for (unsigned q : cast<ExtractValueInst>(x.in)->indices()) a = a->k == AGG ? a->ch[q] : UNDEF_; S[x.dst] = a; break; }
        case Instruction::InsertValue: {
          T *a = val(x.ops[0]), *b = val(x.ops[1]); auto idx = cast<InsertValueInst>(x.in)->getIndices(); if (idx.size() != 1) fatal("nested insertvalue");
          unsigned n = x.ty->isStructTy() ? x.ty->getStructNumElements() : x.ty->getArrayNumElements(); vector<T*> v; for (unsigned q = 0; q < n; q++) v.push_back(a->k == AGG ? a->ch[q] : UNDEF_); v[idx[0]] = b; S[x.dst] = mkAgg(v); break;
        }
        case Instruction::ExtractElement: { T *a = val(x.ops[0]), *ix = val(x.ops[1]); S[x.dst] = a->k == AGG ? a->ch[ix->c] : a; break; }
        case Instruction::InsertElement: { T *a = val(x.ops[0]), *b = val(x.ops[1]), *ix = val(x.ops[2]); unsigned n = cast<FixedVectorType>(x.ty)->getNumElements(); vector<T*> v; for (unsigned q = 0; q < n; q++) v.push_back(a->k == AGG ? a->ch[q] : UNDEF_); v[ix->c] = b; S[x.dst] = mkAgg(v); break; }
        case Instruction::Br: {
          if (x.succ[1] < 0) { addEdge(x.succ[0], G); break; }
          T *c = val(x.ops[0]);
          if (c->k == UNDEFV) { violate(G, "uninit", "branch on undefined value"); c = mkBVar("undef_br"); }
          if (isInt(c)) c = i2b(c);
          c = restrictT(c, G);
          if (G == TRUE_ && c != TRUE_ && c != FALSE_ && cur >= 0 && ranks[cur].bsplit) c = splitBool(c);
          // BranchInst operands: condition, false, true ; successor(0) = true
          if (c == TRUE_) addEdge(x.succ[0], G); else if (c == FALSE_) addEdge(x.succ[1], G);
          else { T *gt = mkAnd(G, c), *gf = mkAnd(G, mkNot(c)); if (gf != FALSE_ && gt != FALSE_ && brFeas) { if (infeasibleQuick(gt)) gt = FALSE_; else if (infeasibleQuick(gf)) gf = FALSE_; }
            if (gf == FALSE_) gt = G; if (gt == FALSE_) gf = G; addEdge(x.succ[0], gt); addEdge(x.succ[1], gf); }
          break;
        }
        case Instruction::Ret: { rets.push_back({G, x.ops.empty() ? nullptr : val(x.ops[0])}); retSeen = true; break; }
        case Instruction::Unreachable: { violate(G, "unreachable", "reached unreachable code"); alive = mkAnd(alive, mkNot(G)); break; }
        case Instruction::Call: case Instruction::Invoke: {
          vector<T*> a; a.reserve(x.ops.size()); size_t na = x.callee ? x.ops.size() : x.ops.size() - 1;
          for (size_t q = 0; q < na; q++) { T *v = val(x.ops[q]); a.push_back(v ? v : UNDEF_); }
          Ret r;
          if (x.callee) {
            if (x.callee->isDeclaration()) { if (x.intr < 0) fatal("call of undefined function " + x.callee->getName().str() + " at " + where()); r = intrinsic(intrNames[x.intr], x, a, G); }
            else r = callFn(x.callee, a, G);
          } else r = callPtr(val(x.ops.back()), a, G);
          if (x.dst >= 0) S[x.dst] = r.v ? r.v : UNDEF_;
          if (r.g != G) {
            alive = G == alive ? r.g : mkAnd(alive, mkNot(mkAnd(G, mkNot(r.g))));
            G = r.g; if (G == FALSE_) dead = true;
          }
          break;
        }
        default: fatal(string("opcode ") + x.in->getOpcodeName() + " at " + where());
      }
    }
  }
  T *rv = nullptr; T *rg = FALSE_;
  if (rets.size() == 1) { rv = rets[0].second; rg = rets[0].first; if (g == alive) rg = g; }
  else if (!rets.empty()) {
    vector<T*> gs, rel; for (auto &r : rets) gs.push_back(r.first); relGuards(gs, rel);
    rv = rets.back().second; if (rv) for (size_t i = rets.size() - 1; i--;) rv = mkIteAny(rel[i], rets[i].second, rv);
    if (alive == g) rg = g; else { for (T *x : gs) rg = mkOr(rg, x); }
  }
  if (rets.size() == 1 && alive != g) rg = alive;
  for (Obj *o : locals) { o->freed = TRUE_; vector<Cell>().swap(o->cells); }
  cstk().pop_back();
  return {rv, rg};
}

// ------------------------------------------------------------------ intrinsics
static int fvars = 0;
static bool isLeaf(); static vector<i64> range(i64 a, i64 b) { vector<i64> v; for (; a <= b; a++) v.push_back(a); return v; } static i64 splitOver(const vector<i64> &vs);
static T *splitInt(T *v) { vector<i64> vs; if (!valuesOf(v, TRUE_, 64, vs) || vs.empty()) return v; i64 k = vs.size() == 1 ? vs[0] : splitOver(vs); T *h = mkEq(v, I(k)); assumes.push_back(h); solverAssert(h); poolAssume(h); infeas.clear(); return I(k); }
static T *splitDiv(T *a, T *b, bool flt) { // division by a possibly zero value, by the sign of the divisor
  static int nd = 0; T *n = b->ch[0]; T *an = a->k == FRAT ? a->ch[0] : nullptr;
  auto neg = [&]() { return an ? splitBool(mkLt(an, I(0))) == TRUE_ : a->d < 0; }; auto zero = [&]() { return an ? splitBool(mkEq(an, I(0))) == TRUE_ : a->d == 0; };
  if (splitBool(mkEq(n, I(0))) == TRUE_) { if (zero()) return F(NAN); return F(neg() ? -INFINITY : INFINITY); }
  bool ng = n->lo < 0 && splitBool(mkLt(n, I(0))) == TRUE_;
  char key[32]; snprintf(key, sizeof key, "divisor%d", nd++); T *m = ng ? mkMulC(n, -1) : n; T *v = mkIVar(key, 1, m->hi); T *h = mkEq(v, m); assumes.push_back(h); solverAssert(h); poolAssume(h);
  return fDiv(ng ? fNeg(a) : a, mkRat(v, b->ch[1]), flt);
}
// path splitting (vp_branch_split): decide a symbolic condition case by case over its feasible values
static T *splitBool(T *c) {
  T *n = mkNot(c); int t = feas(c, 20000), f = feas(n, 20000); if (t < 0 || f < 0) return c;
  if (!t && !f) { if (isLeaf()) leave(0); fatal("no feasible case"); }
  T *h = !f ? c : !t ? n : splitOver({0, 1}) ? c : n; assumes.push_back(h); solverAssert(h); poolAssume(h); infeas.clear(); return h == c ? TRUE_ : FALSE_;
}
static Ret intrinsic(const string &n0, Ins &x, vector<T*> &a, T *g) {
  string n = n0;
  auto R = [&](T *v) -> Ret { return {v, g}; };
  if (n.rfind("llvm.", 0) == 0) { size_t p = n.find('.', 5); if (p != string::npos) n = n.substr(0, p); }
  if (n == "llvm.memcpy" || n == "llvm.memmove" || n == "memcpy" || n == "memmove") { doMemcpy(a[0], a[1], a[2], g); return R(a[0]); }
  if (n == "llvm.memset" || n == "memset") { doMemset(a[0], a[1], a[2], g); return R(a[0]); }
  if (n == "llvm.lifetime" || n == "llvm.dbg" || n == "llvm.assume" || n == "llvm.experimental" || n == "llvm.donothing") return R(nullptr);
  if (n == "llvm.fabs") { T *v = a[0]; if (v->k == FCONST) return R(F(std::fabs(v->d))); return R(mkFIte(fCmp(4, v, F(0)), fNeg(v), v)); }
  if (n == "llvm.fmuladd") return R(fAdd(fMul(a[0], a[1], false), a[2], false, false));
  if (n == "llvm.smax") return R(mkIIte(mkLe(a[0], a[1]), a[1], a[0])); if (n == "llvm.smin") return R(mkIIte(mkLe(a[0], a[1]), a[0], a[1]));
  if (n == "llvm.abs") return R(mkIIte(mkLt(a[0], I(0)), mkMulC(a[0], -1), a[0]));
  if (n == "llvm.stacksave" ) return R(mkPtr(0, I(0))); if (n == "llvm.stackrestore") return R(nullptr);
  if (n == "llvm.trap") { violate(g, "trap", "trap"); return {nullptr, FALSE_}; }
  auto fun1 = [&](double (*f)(double), bool flt) { T *v = a[0]; if (v->k == FCONST) { double d = f(v->d); return R(F(flt ? (double)(float)d : d)); } return R(mkOpq()); };
  if (n == "sqrt" || n == "llvm.sqrt") return fun1(sqrt, false); if (n == "sin" || n == "llvm.sin") return fun1(sin, false); if (n == "cos" || n == "llvm.cos") return fun1(cos, false);
  if (n == "floor" || n == "llvm.floor") return fun1(floor, false); if (n == "ceil" || n == "llvm.ceil") return fun1(ceil, false); if (n == "exp") return fun1(exp, false); if (n == "log") return fun1(log, false);
  if (n == "sqrtf") return fun1(sqrt, true); if (n == "sinf") return fun1(sin, true); if (n == "cosf") return fun1(cos, true); if (n == "floorf") return fun1(floor, true);
  if (n == "pow") { if (a[0]->k == FCONST && a[1]->k == FCONST) return R(F(pow(a[0]->d, a[1]->d))); return R(mkOpq()); }
  if (n == "fabs") { T *v = a[0]; if (v->k == FCONST) return R(F(std::fabs(v->d))); return R(mkFIte(fCmp(4, v, F(0)), fNeg(v), v)); }
  if (n == "abs") return R(mkIIte(mkLt(a[0], I(0)), mkMulC(a[0], -1), a[0]));
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") return R(heapAlloc(restrictT(a[0], g), g, "heap block"));
  if (n == "calloc") { T *p = heapAlloc(restrictT(mkMul(a[0], a[1]), g), g, "heap block"); objs[p->c]->zero = true; return R(p); }
  if (n == "posix_memalign" || n == "aligned_alloc") {
    if (n == "aligned_alloc") return R(heapAlloc(restrictT(a[1], g), g, "heap block"));
    T *p = heapAlloc(restrictT(a[2], g), g, "heap block"); store(a[0], 8, p, g); return R(I(0));
  }
  if (n == "realloc") {
    T *sz = restrictT(a[1], g); T *p = heapAlloc(sz, g, "heap block");
    vector<pair<T*, T*>> ls; leavesOf(restrictT(a[0], g), g, ls);
    for (auto &l : ls) { Obj *o = objs[l.second->c]; if (o->kind == O_NULL) continue; if (o->kind != O_HEAP) { violate(l.first, "memory", "realloc of non-heap memory"); continue; }
      T *len = mkIIte(mkLe(o->size, sz), o->size, sz);
      violate(mkAnd(l.first, o->freed), "memory", "realloc of freed " + o->name);
      // copy without uninit noise
      int gr = 4; for (auto &c : o->cells) if (c.sz > 0) { gr = c.sz; break; }
      Obj *d = objs[p->c];
      for (i64 q = 0; q + gr <= std::min(o->maxsize, d->maxsize); q += gr) { T *v = readCell(o, q, gr, nullptr); T *gg = mkAnd(l.first, mkLe(I(q + gr), len)); if (v && gg != FALSE_) storeLeaf(d, I(q), gr, v, gg); }
      o->freed = mkOr(o->freed, l.first); if (o->freed == o->allocg) o->freed = TRUE_; }
    return R(p);
  }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm") { doFree(a[0], g); return R(nullptr); }
  if (n == "malloc_usable_size") { vector<pair<T*, T*>> ls; leavesOf(a[0], g, ls); return R(ls.empty() ? I(0) : objs[ls[0].second->c]->size); }
  if (n == "printf" || n == "fprintf" || n == "puts" || n == "putchar" || n == "fputs" || n == "fflush" || n == "fputc" || n == "fwrite" || n == "fclose") return R(I(0));
  if (n == "sprintf" || n == "snprintf") { store(a[0], 1, I(0), g); return R(I(0)); }
  if (n == "exit" || n == "_exit" || n == "abort" || n == "_ZSt9terminatev" || n == "__assert_fail") {
    if (n == "abort" || n == "__assert_fail") violate(g, "abort", n + " called");
    if (cur >= 0) { ranks[cur].exited = mkOr(ranks[cur].exited, g); if ((n == "exit" || n == "_exit") && isInt(a[0])) ranks[cur].exzero = mkOr(ranks[cur].exzero, mkAnd(g, mkEq(a[0], I(0)))); }
    return {nullptr, FALSE_};
  }
  if (n == "__cxa_atexit" || n == "__cxa_guard_acquire") return R(I(n == "__cxa_guard_acquire")); if (n == "__cxa_guard_release") return R(nullptr);
  if (n == "__cxa_pure_virtual") fatal("pure virtual");
  // ---- verification intrinsics
  if (n == "vp_sym_int") {
    string nm = cstr(a[0]); if (a[1]->k != ICONST || a[2]->k != ICONST) fatal("vp_sym_int range not constant: " + nm);
    char key[160]; snprintf(key, sizeof key, "%s@%d.%zu", nm.c_str(), cur, syms.size());
    T *v = mkIVar(key, a[1]->c, a[2]->c); syms.push_back({nm, cur, g, v}); return R(v);
  }
  if (n == "vp_split") {   // symbolic execution by cases: one case per value the solver finds feasible
    if (a[0]->k == ICONST) return R(a[0]); if (g != TRUE_) fatal("vp_split under a condition");
    vector<i64> vs; if (!valuesOf(a[0], TRUE_, 100000, vs)) fatal("vp_split: values not determined"); if (vs.empty()) { if (isLeaf()) leave(0); fatal("vp_split: no feasible value"); }
    i64 k = vs.size() == 1 ? vs[0] : splitOver(vs); T *h = mkEq(a[0], I(k)); assumes.push_back(h); solverAssert(h); poolAssume(h); infeas.clear(); return R(I(k));
  }
  if (n == "vp_choice") {
    string nm = cstr(a[0]); if (g != TRUE_ || a[1]->k != ICONST || a[2]->k != ICONST) fatal("vp_choice under a condition: " + nm);
    auto it = params.find(nm); i64 k = it != params.end() ? it->second : a[1]->c == a[2]->c ? a[1]->c : splitOver(range(a[1]->c, a[2]->c));
    syms.push_back({nm, cur, g, I(k)}); choices.push_back({nm, k}); return R(I(k));
  }
  if (n == "vp_assume") { nAssume++; T *c = isBool(a[0]) ? a[0] : i2b(a[0]); T *h = g == TRUE_ ? c : mkOr(mkNot(g), c); if (h == FALSE_) { if (isLeaf()) leave(0); fatal("vp_assume(false) always: vacuous harness at " + where()); } assumes.push_back(h); solverAssert(h); poolAssume(h); return R(nullptr); }
  if (n == "vp_assert") { nAssert++; T *c = isBool(a[0]) ? a[0] : i2b(a[0]); violate(mkAnd(g, mkNot(c)), "assert", cstr(a[1])); return R(nullptr); }
  if (n == "vp_cover") { T *c = isBool(a[0]) ? a[0] : i2b(a[0]); covers[cstr(a[1])].push_back(mkAnd(g, c)); return R(nullptr); }
  if (n == "vp_branch_split") { if (cur >= 0) ranks[cur].bsplit = a[0]->c; return R(nullptr); }
  if (n == "vp_param") { auto it = params.find(cstr(a[0])); return R(it == params.end() ? a[1] : I(it->second)); }
  if (n == "vp_rank") return R(I(cur));
  if (n == "vp_symbolic") return R(I(1));
  if (n == "vp_tok") return R(mkTok(a[0], F(1.0)));
  if (n == "vp_tok_code") return R(restrictT(tokCode(restrictT(a[0], g)), g));
  if (n == "vp_tok_scale") return R(tokScale(restrictT(a[0], g)));
  if (n == "vp_tok_with") { T *s = tokScale(a[0]); return R(mkTok(a[1], s->k == FITE ? F(-1) : s)); }
  if (n == "vp_pair_code" || n == "vp_pair_scale") { // identity / factor of a complex datum whose parts carry codes c and c+B
    bool sc = n == "vp_pair_scale"; if (a[2]->k != ICONST) fatal("vp_pair");
    std::function<T*(T*, T*, T*)> rec = [&](T *re, T *im, T *gg) -> T* {
      if (re->k == FITE || im->k == FITE) { T *c = re->k == FITE ? re->ch[0] : im->ch[0]; T *gt = mkAnd(gg, c), *ge = mkAnd(gg, mkNot(c));
        T *x = re->k == FITE ? re->ch[1] : re, *y = re->k == FITE ? re->ch[2] : re;
        if (gt == FALSE_) return rec(restrictT(y, ge), restrictT(im, ge), ge); if (ge == FALSE_) return rec(restrictT(x, gt), restrictT(im, gt), gt);
        T *p = rec(restrictT(x, gt), restrictT(im, gt), gt), *q = rec(restrictT(y, ge), restrictT(im, ge), ge); return mkIteAny(c, p, q); }
      bool ok = re->k == FTOK && im->k == FTOK && re->ch[1] == im->ch[1];
      if (sc) return ok ? re->ch[1] : F(-1000);
      if (!ok) return I(-1000); return mkIIte(mkEq(im->ch[0], mkAdd(re->ch[0], a[2])), re->ch[0], I(-1000));
    };
    return R(rec(restrictT(a[0], g), restrictT(a[1], g), g));
  }
  if (n == "vp_tok_mul") return R(mkTok(a[0], a[1]->k == FCONST ? a[1] : F(-1)));
  if (n == "vp_scale_is") { std::function<T*(T*, T*, T*)> rec = [&](T *t, T *w, T *gg) -> T* {
      t = restrictT(t, gg); w = restrictT(w, gg); T *c = t->k == FITE ? t->ch[0] : w->k == FITE ? w->ch[0] : nullptr;
      if (c) return mkBIte(c, rec(t, w, mkAnd(gg, c)), rec(t, w, mkAnd(gg, mkNot(c))));
      return t->k == FCONST && w->k == FCONST && std::fabs(t->d - w->d) <= 1e-5 * std::fabs(w->d) ? TRUE_ : FALSE_; };
    return R(b2i(rec(a[0], a[1], g))); }
  if (n == "vp_real") return R(mkFVar(a[0]->c));
  if (n == "vp_assert_close") {
    nAssert++; T *d = fAdd(a[0], a[1], true, false); string m = cstr(a[3]); double eps = a[2]->d;
    std::function<void(T*, T*)> rec = [&](T *t, T *gg) {
      if (gg == FALSE_) return;
      if (t->k == FITE) { rec(t->ch[1], mkAnd(gg, t->ch[0])); rec(t->ch[2], mkAnd(gg, mkNot(t->ch[0]))); return; }
      if (t->k == FCONST) { violChecks++; if (!(std::fabs(t->d) <= eps)) violate(gg, "assert", m); else constAsserts++; return; }
      if (t->k == FLIN) { violChecks++; closes.push_back({gg, t, eps, m, cur}); return; }
      violate(gg, "assert", m + " (not a linear function of the input)");
    };
    rec(d, g); return R(nullptr);
  }
  if (n == "vp_fresh_time") { // arbitrary non-negative clock reading
    char key[64]; snprintf(key, sizeof key, "time@%d.%zu", cur, syms.size()); T *v = mkIVar(key, a[0]->c, a[1]->c); syms.push_back({"time", cur, g, v}); return R(mkRat(v, I(1)));
  }
  if (n == "vp_run_ranks") { if (a[0]->k != ICONST) fatal("symbolic rank count"); runRanks(a[0]->c, a[1], a[2], g); return R(nullptr); }
  if (n == "vp_block") {
    if (cur < 0) fatal("vp_block outside ranks");
    Rank &r = ranks[cur]; bool first = true; bool lazy = a[2]->k == ICONST && a[2]->c;
    for (;;) {
      if (!(first && lazy)) {
        vector<T*> ca{a[1]}; Ret c = callPtr(a[0], ca, g); T *cv = isBool(c.v) ? c.v : i2b(c.v); cv = restrictT(cv, g);
        if (cv == TRUE_ || r.force) { r.force = false; r.prog++; return R(nullptr); }
        r.bcond = cv;
      } else r.bcond = FALSE_;
      r.blocked = true; r.bguard = g; r.lazy = first && lazy; r.bwhere = where(); first = false;
      yieldRank();
    }
  }
  if (n == "vp_uid") { static map<i64, i64> ctr; return R(I(++ctr[a[0]->c])); }
  if (n == "vp_malloc") { T *p = heapAlloc(restrictT(a[0], g), g, "harness block"); objs[p->c]->rank = -1; return R(p); }
  if (n == "vp_exited") { T *e = ranks[a[0]->c].exited, *z = ranks[a[0]->c].exzero; return R(mkAdd(b2i(e ? e : FALSE_), b2i(z ? z : FALSE_))); }
  if (n == "vp_kill") { if (cur >= 0) ranks[cur].exited = mkOr(ranks[cur].exited, g); return {nullptr, FALSE_}; }
  if (n == "vp_halt") { haltCond = mkOr(haltCond, g); return {nullptr, FALSE_}; }   // MPI_Abort: everything stops
  if (n == "vp_halted") return R(b2i(haltCond));
  if (n == "vp_stop") return {nullptr, FALSE_};                                      // end this path silently
  if (n == "vp_live_bytes" || n == "vp_live_blocks") {
    T *s = I(0); for (Obj *o : objs) if (o->kind == O_HEAP && o->rank == a[0]->c && o->freed != TRUE_ && !o->ro) {
      T *live = mkAnd(o->allocg, mkNot(o->freed)); T *amt = n == "vp_live_bytes" ? o->size : I(1); s = mkAdd(s, mkIIte(live, amt, I(0))); }
    return R(s);
  }
  if (n == "vp_obj_size") { vector<pair<T*, T*>> ls; leavesOf(restrictT(a[0], g), g, ls); return R(ls.empty() ? I(0) : objs[ls[0].second->c]->size); }
  if (n == "vp_alive") { // 1 if pointer designates live memory of at least n bytes
    vector<pair<T*, T*>> ls; leavesOf(restrictT(a[0], g), TRUE_, ls); T *r = FALSE_;
    for (auto &l : ls) { Obj *o = objs[l.second->c]; if (o->kind < O_HEAP || o->kind == O_FN) continue; r = mkOr(r, mkAnd(l.first, mkAnd(mkNot(o->freed), mkLe(mkAdd(l.second->ch[0], a[1]), o->size)))); }
    return R(b2i(r));
  }
  if (n == "vp_debug") { fprintf(stderr, "DEBUG %s rank %d guard %s value %s\n", cstr(a[0]).c_str(), cur, show(g, 3).c_str(), show(a[1], 6).c_str()); return R(nullptr); }
  fatal("call of undefined function " + n + " at " + where());
}

// ------------------------------------------------------------------ case splits: one process per value, at most -j running
static int tokFd[2] = {-1, -1}; static int jobs = 1; static struct Shared { volatile int stop; volatile int leaves, died, live; } *shr; static bool isLeafSplit = false;
static void tokGet() { char c; while (read(tokFd[0], &c, 1) != 1) {} }
static void tokPut() { char c = 't'; while (write(tokFd[1], &c, 1) != 1) {} }
static bool isLeaf() { return isLeafSplit; }
static i64 splitOver(const vector<i64> &vs) {
  fflush(stdout); fflush(stderr);
  size_t kids = 0; int worst = 0; bool own = true;
  auto reap = [&](int fl) { int st = 0; pid_t p = waitpid(-1, &st, fl); if (p <= 0) return false; kids--; __sync_fetch_and_sub(&shr->live, 1); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 4;
    auto rk = [](int r) { return r == 1 ? 5 : r; }; if (rk(rc) > rk(worst)) worst = rc; if (!WIFEXITED(st)) { tokPut(); shr->died++; fprintf(stderr, "ENGINE-ERROR a case died with signal %d\n", WTERMSIG(st)); } return true; };
  for (i64 k : vs) {
    if (!own) tokGet(); if (shr->stop) { own = true; break; }
    pid_t p = fork(); if (p < 0) { fprintf(stderr, "ENGINE-ERROR fork\n"); tokPut(); worst = 4; break; }
    if (p == 0) { isLeafSplit = true; t0wall = nowS(); return k; }
    kids++; own = false; __sync_fetch_and_add(&shr->live, 1); while (kids && reap(WNOHANG)) {}
    if (shr->live > 300) while (kids) if (!reap(0)) break;   // many pending splits: go depth first
  }
  if (own) tokPut(); while (kids) if (!reap(0)) break;
  fflush(stdout); _exit(worst);
}
static void leave(int rc) { if (tokFd[1] >= 0) tokPut(); if (rc == 1 && !keepGoing) shr->stop = 1; fflush(stdout); fflush(stderr); _exit(rc); }
// ------------------------------------------------------------------ main
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static string entry = "vp_main", outFile, modFile;

static void realMain() {
  t0wall = nowS();
  termInit(); termFatal = [](const char *m) { fatal(string(m) + " at " + where()); }; solverInit(); haltCond = FALSE_; POISON_TOK = mkTok(I(-77), F(1.0));
  Obj *nu = newObj(O_NULL, I(0), 0, TRUE_, "null"); Obj *wi = newObj(O_WILD, I(0), 0, TRUE_, "wild"); (void)nu; (void)wi;
  for (const char *s : {"llvm.memcpy", "llvm.memmove", "llvm.memset", "memcpy", "memmove", "memset", "llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental", "llvm.fabs", "llvm.fmuladd", "llvm.smax", "llvm.smin", "llvm.abs", "llvm.stacksave", "llvm.stackrestore", "llvm.trap", "sqrt", "llvm.sqrt", "sin", "llvm.sin", "cos", "llvm.cos", "floor", "llvm.floor", "ceil", "llvm.ceil", "exp", "log", "sqrtf", "sinf", "cosf", "floorf", "pow", "fabs", "abs", "malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "calloc", "posix_memalign", "aligned_alloc", "realloc", "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "malloc_usable_size", "printf", "fprintf", "puts", "putchar", "fputs", "fflush", "fputc", "fwrite", "fclose", "sprintf", "snprintf", "exit", "_exit", "abort", "_ZSt9terminatev", "__assert_fail", "__cxa_atexit", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_pure_virtual",
       "vp_sym_int", "vp_choice", "vp_split", "vp_branch_split", "vp_assume", "vp_assert", "vp_cover", "vp_param", "vp_rank", "vp_symbolic", "vp_tok", "vp_tok_code", "vp_tok_scale", "vp_tok_with", "vp_pair_code", "vp_pair_scale", "vp_tok_mul", "vp_scale_is", "vp_real", "vp_assert_close", "vp_fresh_time", "vp_run_ranks", "vp_block", "vp_uid", "vp_malloc", "vp_exited", "vp_kill", "vp_halt", "vp_halted", "vp_stop", "vp_live_bytes", "vp_live_blocks", "vp_obj_size", "vp_alive", "vp_debug"}) { intrIds[s] = intrNames.size(); intrNames.push_back(s); }
  static LLVMContext ctx; SMDiagnostic err; Mod = parseIRFile(modFile, err, ctx); if (!Mod) fatal("cannot read " + modFile);
  DL = &Mod->getDataLayout();
  Function *f = Mod->getFunction(entry); if (!f) fatal("no entry " + entry);
  vector<T*> args; callFn(f, args, TRUE_);
  double texec = nowS() - t0wall;
  // ---- decide
  string status = "holds"; vector<T*> conds; string vjson; uint64_t symV = 0;
  auto modelJson = [&](Eval &E) {
    map<string, vector<i64>> in; for (auto &s : syms) if (E.ev(s.g)) in[s.name + "@" + std::to_string(s.rank)].push_back(s.v->k == ICONST ? s.v->c : modelVal(s.v));
    string o = "{"; bool c = false; for (auto &p : in) { o += string(c ? "," : "") + "\"" + jesc(p.first) + "\":["; for (size_t i = 0; i < p.second.size(); i++) o += (i ? "," : "") + std::to_string(p.second[i]); o += "]"; c = true; } return o + "}";
  };
  auto mkEval = [&]() { Eval E; E.var = [](T *t) { return modelVal(t); }; return E; };
  for (auto &v : viols) { conds.push_back(v.cond); symV++; }
  if (verbose) fprintf(stderr, "[%.1fs] executed: steps %lu terms %lu, %zu assertion conditions to decide\n", texec, steps, nterms, conds.size());
  // vacuity first
  string covJson = "{"; bool cc = false; bool vac = false;
  if (solverCheck(TRUE_) != 1) { if (isLeafSplit) leave(0); status = "vacuous"; vac = true; }
  for (auto &p : covers) { int r = 0; for (T *c : p.second) { r = solverCheck(c, true); if (r) break; }
    string mj = "null"; if (r == 1) { Eval E = mkEval(); mj = modelJson(E); } else if (r < 0) { vac = true; status = "unknown"; } else if (!isLeafSplit) { vac = true; status = "vacuous"; }
    covJson += string(cc ? "," : "") + "\"" + jesc(p.first) + "\":" + (r == 1 ? mj : "\"UNREACHED\""); cc = true; }
  covJson += "}";
  double tdec = 0;
  if (!vac || !conds.empty()) {
    std::sort(conds.begin(), conds.end(), [](T *a, T *b) { return a->id < b->id; }); conds.erase(std::unique(conds.begin(), conds.end()), conds.end());
    double td0 = nowS();
    // decide in chunks (one query per chunk of disjoined assertion violations)
    size_t chunk = conds.size(); if (params.count("_chunk")) chunk = params["_chunk"]; if (chunk == 0) chunk = 1;
    int found = 0; bool unk = false;
    for (size_t i = 0; i < conds.size() && !found; i += chunk) {
      vector<T*> part(conds.begin() + i, conds.begin() + std::min(conds.size(), i + chunk));
      int left = (int)((wallLimit - (nowS() - t0wall)) * 1000); if (left < 1000) { unk = true; break; } gTimeoutMs = left;
      int r = solverCheck(mkOrN(part), true); if (r == 1) found = 1; else if (r < 0) unk = true;
    }
    tdec = nowS() - td0;
    if (found) {
      status = "violated"; Eval E = mkEval(); bool okA = true; for (T *h : assumes) if (!E.ev(h)) okA = false;
      vector<Viol*> hit; for (auto &v : viols) if (E.ev(v.cond)) hit.push_back(&v);
      if (!okA || hit.empty()) { status = "error"; fprintf(stderr, "ENGINE-ERROR model does not satisfy assumptions/violations (%d,%zu)\n", okA, hit.size()); }
      vjson = "[";
      for (size_t i = 0; i < hit.size() && i < 8; i++) vjson += string(i ? "," : "") + "{\"kind\":\"" + hit[i]->kind + "\",\"msg\":\"" + jesc(hit[i]->msg) + "\",\"where\":\"" + jesc(hit[i]->where) + "\",\"rank\":" + std::to_string(hit[i]->rank) + "}";
      vjson += "],\"inputs\":" + modelJson(E);
    } else if (unk) status = "unknown";
  }
  string realWit;
  if (status == "holds") for (auto &c : closes) {
    vector<pair<int, double>> v; for (i64 i = 1; i < c.diff->c; i += 2) v.push_back({(int)c.diff->df[i], c.diff->df[i + 1]});
    map<int, double> w; int r = lraExceeds(v, c.diff->df[0], c.eps, w); if (r == 0) continue;
    if (r < 0) { status = "unknown"; continue; }
    int s = solverCheck(c.g, true); if (s == 0) continue;
    status = "violated"; Eval E = mkEval();
    vjson = "[{\"kind\":\"assert\",\"msg\":\"" + jesc(c.msg) + "\",\"where\":\"\",\"rank\":" + std::to_string(c.rank) + "}],\"inputs\":" + modelJson(E) + ",\"reals\":{";
    bool q = false; for (auto &p : w) { char b[80]; snprintf(b, sizeof b, "%s\"%d\":%.17g", q ? "," : "", p.first, p.second); vjson += b; q = true; } vjson += "}";
    break;
  }
  // ---- report
  string fj = "["; bool fc = false; for (auto &p : fns) if (p.second->calls && p.second->name.find("vp_") == string::npos && p.second->name.find("vpm_") == string::npos) { fj += string(fc ? "," : "") + "[\"" + jesc(p.second->name.substr(0, 160)) + "\"," + std::to_string(p.second->calls) + "]"; fc = true; } fj += "]";
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  string J; char buf[2048]; string ch = "{"; for (size_t i = 0; i < choices.size(); i++) ch += (i ? ",\"" : "\"") + choices[i].first + "\":" + std::to_string(choices[i].second); ch += "}";
  snprintf(buf, sizeof buf, "{\"status\":\"%s\",\"steps\":%lu,\"terms\":%lu,\"objects\":%zu,\"assertions\":%lu,\"assertions_by_folding\":%lu,\"assertions_by_solver\":%lu,\"close_assertions\":%zu,\"symbolic_inputs\":%zu,\"assumptions\":%lu,\"queries\":%lu,\"queries_unsat\":%lu,\"queries_sat\":%lu,\"feasibility_queries\":%lu,\"lra_queries\":%lu,\"solver_s\":%.3f,\"exec_s\":%.3f,\"wall_s\":%.3f,\"maxrss_mb\":%ld,\"z3_nodes\":%lu",
          status.c_str(), steps, nterms, objs.size(), violChecks, constAsserts, symV, closes.size(), allVars.size(), nAssume, stats.queries, stats.unsat, stats.sat, stats.feas, stats.lra, stats.secs, texec, nowS() - t0wall, ru.ru_maxrss / 1024, stats.nodes);
  J = buf; J += ",\"choices\":" + ch + ",\"covers\":" + covJson + ",\"functions\":" + fj; if (!vjson.empty()) J += ",\"violation\":" + vjson; J += "}\n";
  int fd = outFile.empty() ? 1 : open(outFile.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); size_t off = 0; while (off < J.size()) { ssize_t w = write(fd, J.data() + off, J.size() - off); if (w <= 0) break; off += w; }
  leave(status == "holds" ? 0 : status == "violated" ? 1 : 3);
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    string s = argv[i];
    if (s == "-k") keepGoing = true; else if (s == "-nobf") brFeas = false; else if (s == "-novf") valFeas = false; else if (s == "-v") verbose = true; else if (s == "-j") jobs = atoi(argv[++i]); else if (s == "-o") outFile = argv[++i]; else if (s == "-e") entry = argv[++i]; else if (s == "-t") wallLimit = atof(argv[++i]);
    else if (s == "-p") { string p = argv[++i]; size_t e = p.find('='); params[p.substr(0, e)] = atol(p.c_str() + e + 1); }
    else modFile = s;
  }
  shr = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (pipe(tokFd)) return 4; for (int i = 1; i < jobs; i++) tokPut();
  static const size_t SS = (size_t)4 << 30;
  char *st = (char*)mmap(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  static ucontext_t m, b; getcontext(&m); m.uc_stack.ss_sp = st; m.uc_stack.ss_size = SS; m.uc_link = &b; makecontext(&m, realMain, 0); swapcontext(&b, &m);
  return 0;
}
