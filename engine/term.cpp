#include "term.h"
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <algorithm>
#include <unordered_map>
#include <map>
#include <set>
using std::vector; using std::pair; using std::string;

T *TRUE_, *FALSE_, *UNDEF_; void (*termFatal)(const char *);
uint64_t nterms = 0;
static vector<string> varnames; vector<T*> allVars;
static const i64 LIM = (i64)1 << 62;

static inline i64 iabs(i64 x) { return x < 0 ? -x : x; }
static i64 igcd(i64 a, i64 b) { while (b) { i64 t = a % b; a = b; b = t; } return a; }
// ---------------------------------------------------------------- arena + interning
static char *apos = nullptr, *aend = nullptr;
static void *aalloc(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (apos + n > aend) {
    size_t blk = std::max((size_t)1 << 24, n);
    apos = (char*)malloc(blk); aend = apos + blk;
  }
  void *r = apos; apos += n; return r;
}
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29);
}
static vector<T*> table; static size_t tabcount = 0;
static void grow() {
  vector<T*> old; old.swap(table);
  table.assign(old.empty() ? (1u << 20) : old.size() * 2, nullptr);
  size_t m = table.size() - 1;
  for (T *t : old) if (t) { size_t i = t->hash & m; while (table[i]) i = (i + 1) & m; table[i] = t; }
}
struct Proto { Kind k; uint8_t aux = 0; i64 c = 0; double d = 0; const vector<T*> *ch = nullptr; const vector<i64> *cf = nullptr; const vector<double> *df = nullptr;
  T *c2[3]; uint32_t nc = 0; };
static T *intern(Proto &p, bool &isnew) {
  uint32_t n = p.ch ? p.ch->size() : p.nc;
  T *const *ch = p.ch ? p.ch->data() : p.c2;
  uint64_t h = mix(mix(mix(p.k, p.aux), (uint64_t)p.c), n);
  if (p.d != 0) { uint64_t u; memcpy(&u, &p.d, 8); h = mix(h, u); }
  for (uint32_t i = 0; i < n; i++) h = mix(h, ch[i]->id);
  if (p.cf) for (i64 v : *p.cf) h = mix(h, (uint64_t)v);
  if (p.df) for (double v : *p.df) { uint64_t u; memcpy(&u, &v, 8); h = mix(h, u); }
  if (tabcount * 2 >= table.size()) grow();
  size_t m = table.size() - 1, i = h & m;
  for (; table[i]; i = (i + 1) & m) {
    T *t = table[i];
    if (t->hash != h || t->k != p.k || t->aux != p.aux || t->c != p.c || t->n != n) continue;
    if (memcmp(&t->d, &p.d, 8)) continue;
    if (n && memcmp(t->ch, ch, n * sizeof(T*))) continue;
    if (p.cf && memcmp(t->cf, p.cf->data(), n * 8)) continue;
    if (p.df && (memcmp(t->df, p.df->data(), p.df->size() * 8))) continue;
    isnew = false; return t;
  }
  T *t = (T*)aalloc(sizeof(T)); memset((void*)t, 0, sizeof(T));
  t->k = p.k; t->aux = p.aux; t->c = p.c; t->d = p.d; t->n = n; t->hash = h; t->id = nterms++;
  if (n) { t->ch = (T**)aalloc(n * sizeof(T*)); memcpy(t->ch, ch, n * sizeof(T*)); }
  if (p.cf) { t->cf = (i64*)aalloc(n * 8 + 8); memcpy(t->cf, p.cf->data(), n * 8); }
  if (p.df) { t->df = (double*)aalloc(p.df->size() * 8 + 8); memcpy(t->df, p.df->data(), p.df->size() * 8); }
  t->lo = -LIM; t->hi = LIM;
  table[i] = t; tabcount++; isnew = true; return t;
}
static T *mk0(Kind k, i64 c = 0, double d = 0, uint8_t aux = 0) { Proto p; p.k = k; p.c = c; p.d = d; p.aux = aux; bool nw; return intern(p, nw); }
static T *mk1(Kind k, T *a, i64 c, bool &nw) { Proto p; p.k = k; p.c = c; p.c2[0] = a; p.nc = 1; return intern(p, nw); }
static T *mk2(Kind k, T *a, T *b, bool &nw, uint8_t aux = 0, i64 c = 0) { Proto p; p.k = k; p.aux = aux; p.c = c; p.c2[0] = a; p.c2[1] = b; p.nc = 2; return intern(p, nw); }
static T *mk3(Kind k, T *a, T *b, T *d, bool &nw) { Proto p; p.k = k; p.c2[0] = a; p.c2[1] = b; p.c2[2] = d; p.nc = 3; return intern(p, nw); }

static T *smallI[4096];
void termInit() {
  grow();
  TRUE_ = mk0(BTRUE); FALSE_ = mk0(BFALSE); UNDEF_ = mk0(UNDEFV);
  for (int i = 0; i < 4096; i++) { T *t = mk0(ICONST, i - 1024); t->lo = t->hi = i - 1024; t->cleaf = true; t->leaves = 1; smallI[i] = t; }
}
T *I(i64 v) {
  if (v >= -1024 && v < 3072) return smallI[v + 1024];
  bool nw; Proto p; p.k = ICONST; p.c = v; T *t = intern(p, nw);
  if (nw) { t->lo = t->hi = v; t->cleaf = true; t->leaves = 1; }
  return t;
}
static i64 clampi(i128 v) { return v > LIM ? LIM : v < -LIM ? -LIM : (i64)v; }
T *mkIVar(const string &name, i64 lo, i64 hi) {
  if (lo == hi) return I(lo);
  varnames.push_back(name);
  T *t = mk0(IVAR, varnames.size() - 1); t->lo = lo; t->hi = hi; allVars.push_back(t); return t;
}
T *mkBVar(const string &name) { varnames.push_back(name); T *t = mk0(BVAR, varnames.size() - 1); allVars.push_back(t); return t; }
string varName(T *t) { return varnames[t->c]; }

// ---------------------------------------------------------------- linear forms
struct LinB { vector<pair<T*, i64>> t; i64 c = 0; };
static void toLin(T *a, LinB &l) {
  if (a->k == ICONST) l.c = a->c;
  else if (a->k == ILIN) { l.c = a->c; l.t.resize(a->n); for (uint32_t i = 0; i < a->n; i++) l.t[i] = {a->ch[i], a->cf[i]}; }
  else l.t.push_back({a, 1});
}
static T *fromLin(const LinB &l) {
  if (l.t.empty()) return I(l.c);
  if (l.t.size() == 1 && l.t[0].second == 1 && l.c == 0) return l.t[0].first;
  static vector<T*> ch; static vector<i64> cf; ch.clear(); cf.clear();
  i128 lo = l.c, hi = l.c;
  for (auto &p : l.t) {
    ch.push_back(p.first); cf.push_back(p.second);
    i128 x = (i128)p.first->lo * p.second, y = (i128)p.first->hi * p.second;
    lo += std::min(x, y); hi += std::max(x, y);
  }
  Proto p; p.k = ILIN; p.c = l.c; p.ch = &ch; p.cf = &cf; bool nw; T *t = intern(p, nw);
  if (nw) { t->lo = clampi(lo); t->hi = clampi(hi); }
  return t;
}
static void addScaled(const LinB &a, const LinB &b, i64 k, LinB &r) {
  r.c = a.c + b.c * k; size_t i = 0, j = 0; r.t.clear();
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first->id < b.t[j].first->id)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].first->id < a.t[i].first->id) { r.t.push_back({b.t[j].first, b.t[j].second * k}); j++; }
    else { i64 v = a.t[i].second + b.t[j].second * k; if (v) r.t.push_back({a.t[i].first, v}); i++; j++; }
  }
}
static T *addK(T *a, T *b, i64 k) { LinB x, y, r; toLin(a, x); toLin(b, y); addScaled(x, y, k, r); return fromLin(r); }
T *mkAdd(T *a, T *b) { if (a->k == ICONST && b->k == ICONST) return I(a->c + b->c); if (a->k == ICONST && a->c == 0) return b; if (b->k == ICONST && b->c == 0) return a; return addK(a, b, 1); }
T *mkSub(T *a, T *b) { if (a->k == ICONST && b->k == ICONST) return I(a->c - b->c); if (a == b) return I(0); if (b->k == ICONST && b->c == 0) return a; return addK(a, b, -1); }
static bool mapable(T *t) { return t->k == IITE && t->cleaf && t->leaves <= 32; }
static T *mapLeaves(T *t, const std::function<T*(i64)> &f) {
  if (t->k == ICONST) return f(t->c);
  return mkIIte(t->ch[0], mapLeaves(t->ch[1], f), mapLeaves(t->ch[2], f));
}
T *mkMulC(T *a, i64 k) {
  if (a->k == ICONST) return I(a->c * k);
  if (k == 0) return I(0); if (k == 1) return a;
  LinB x, z, r; toLin(a, x); addScaled(z, x, k, r); return fromLin(r);
}
T *mkMul(T *a, T *b) {
  if (a->k == ICONST) return mkMulC(b, a->c);
  if (b->k == ICONST) return mkMulC(a, b->c);
  if (mapable(a) && a->leaves <= 4) { return mapLeaves(a, [&](i64 v) { return mkMulC(b, v); }); }
  if (mapable(b) && b->leaves <= 4) { return mapLeaves(b, [&](i64 v) { return mkMulC(a, v); }); }
  if (a->id > b->id) std::swap(a, b);
  bool nw; T *t = mk2(IMUL, a, b, nw);
  if (nw) {
    i128 v[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
    t->lo = clampi(*std::min_element(v, v + 4)); t->hi = clampi(*std::max_element(v, v + 4));
    if (a == b && t->lo < 0) t->lo = 0;
  }
  return t;
}
T *mkDiv(T *a, T *b) {
  if (b->k == ICONST && b->c != 0) {
    i64 k = b->c;
    if (a->k == ICONST) return I(a->c / k);
    if (k == 1) return a; if (k == -1) return mkMulC(a, -1);
    if (a->k == ILIN) {
      bool ok = a->c % k == 0; for (uint32_t i = 0; i < a->n && ok; i++) ok = a->cf[i] % k == 0;
      if (ok) { LinB l; toLin(a, l); l.c /= k; for (auto &p : l.t) p.second /= k; return fromLin(l); }
    }
    if (mapable(a)) return mapLeaves(a, [&](i64 v) { return I(v / k); });
    if (a->lo / k == a->hi / k && (a->lo >= 0) == (a->hi >= 0)) return I(a->lo / k);
  }
  if (mapable(b) && b->lo > 0 && b->leaves <= 8) return mapLeaves(b, [&](i64 v) { return mkDiv(a, I(v)); });
  bool nw; T *t = mk2(IDIV, a, b, nw);
  if (nw) {
    if (b->lo > 0) {
      i64 v[4] = {a->lo / b->lo, a->lo / b->hi, a->hi / b->lo, a->hi / b->hi};
      t->lo = *std::min_element(v, v + 4); t->hi = *std::max_element(v, v + 4);
      if (a->lo <= 0 && a->hi >= 0) { t->lo = std::min(t->lo, (i64)0); t->hi = std::max(t->hi, (i64)0); }
    } else { i64 m = std::max(iabs(a->lo), iabs(a->hi)); t->lo = -m; t->hi = m; }
  }
  return t;
}
T *mkRem(T *a, T *b) {
  if (b->k == ICONST && b->c != 0) {
    i64 k = b->c;
    if (a->k == ICONST) return I(a->c % k);
    if (k == 1 || k == -1) return I(0);
    if (k > 0 && a->lo >= 0 && a->hi < k) return a;
    if (k > 0 && a->k == ILIN && a->lo >= 0) {  // drop multiples of k when the rest stays non-negative
      LinB l, r; toLin(a, l); r.c = ((l.c % k) + k) % k; bool ch = r.c != l.c;
      for (auto &p : l.t) if (p.second % k) r.t.push_back(p); else ch = true;
      if (ch) { T *t2 = fromLin(r); if (t2->lo >= 0) return mkRem(t2, b); }
    }
    if (mapable(a)) return mapLeaves(a, [&](i64 v) { return I(v % k); });
  }
  if (mapable(b) && b->lo > 0 && b->leaves <= 8) return mapLeaves(b, [&](i64 v) { return mkRem(a, I(v)); });
  bool nw; T *t = mk2(IREM, a, b, nw);
  if (nw) {
    i64 m = std::max(iabs(b->lo), iabs(b->hi)) - 1; if (m < 0) m = 0;
    t->lo = a->lo >= 0 ? 0 : std::max(-m, a->lo); t->hi = a->hi <= 0 ? 0 : std::min(m, a->hi);
  }
  return t;
}
static i64 wrapc(i64 v, int w) { if (w >= 64) return v; uint64_t u = (uint64_t)v << (64 - w); return (i64)u >> (64 - w); }
T *mkBit(BitOp op, T *a, T *b, int w) {
  if (a->k == ICONST && b->k == ICONST) {
    i64 x = a->c, y = b->c; uint64_t ux = w >= 64 ? (uint64_t)x : (uint64_t)x & ((1ull << w) - 1), uy = w >= 64 ? (uint64_t)y : (uint64_t)y & ((1ull << w) - 1);
    switch (op) {
      case OP_WRAP: return I(wrapc(x, w));
      case OP_AND: return I(x & y); case OP_OR: return I(x | y); case OP_XOR: return I(x ^ y);
      case OP_SHL: return I(y < w && y >= 0 ? wrapc((i64)((uint64_t)x << y), w) : 0);
      case OP_LSHR: return I(y < w && y >= 0 ? wrapc((i64)(ux >> y), w) : 0);
      case OP_ASHR: return I(x >> (y < 63 ? y : 63));
      case OP_MULW: return I(wrapc((i64)((uint64_t)x * (uint64_t)y), w));
      case OP_ADDW: return I(wrapc((i64)((uint64_t)x + (uint64_t)y), w));
      case OP_UDIV: return uy ? I(wrapc((i64)(ux / uy), w)) : I(0);
      case OP_UREM: return uy ? I(wrapc((i64)(ux % uy), w)) : I(0);
    }
  }
  if (b->k == ICONST) {
    i64 y = b->c;
    if (op == OP_AND) { if (y == 0) return I(0); if (y == -1) return a; if (y > 0 && ((y + 1) & y) == 0 && a->lo >= 0) return mkRem(a, I(y + 1)); }
    if (op == OP_OR && y == 0) return a; if (op == OP_XOR && y == 0) return a;
    if (op == OP_XOR && y == -1) return mkSub(I(-1), a);
    if (op == OP_SHL && y >= 0 && y < 62) { i128 l = (i128)a->lo << y, h = (i128)a->hi << y; i128 m = (i128)1 << (w - 1); if (l >= -m && h < m) return mkMulC(a, (i64)1 << y); }
    if ((op == OP_LSHR || op == OP_ASHR) && y >= 0 && y < 62 && a->lo >= 0) return mkDiv(a, I((i64)1 << y));
    if (mapable(a)) return mapLeaves(a, [&](i64 v) { return mkBit(op, I(v), b, w); });
  } else if (a->k == ICONST && (op == OP_AND || op == OP_OR || op == OP_XOR)) return mkBit(op, b, a, w);
  bool nw; T *t = mk2(IBIT, a, b, nw, op, w);
  if (nw) {
    i128 m = (i128)1 << (w - 1); t->lo = clampi(-m); t->hi = clampi(m - 1);
    if (op == OP_AND && (a->lo >= 0 || b->lo >= 0)) { t->lo = 0; t->hi = a->lo >= 0 ? (b->lo >= 0 ? std::min(a->hi, b->hi) : a->hi) : b->hi; }
    if ((op == OP_OR || op == OP_XOR) && a->lo >= 0 && b->lo >= 0) { i64 mx = std::max(a->hi, b->hi), p2 = 1; while (p2 <= mx) p2 <<= 1; t->lo = 0; t->hi = p2 - 1; }
  }
  return t;
}
T *mkWrap(T *a, int w) {
  if (w >= 64) return a;
  i64 m = (i64)1 << (w - 1);
  if (a->lo >= -m && a->hi < m) return a;
  return mkBit(OP_WRAP, a, I(0), w);
}
T *mkZext(T *a, int w) {
  if (a->lo >= 0 || w >= 63) return a;
  if (a->k == ICONST) return I(a->c + ((i64)1 << w));
  return mkIIte(mkLt(a, I(0)), mkAdd(a, I((i64)1 << w)), a);
}

// ---------------------------------------------------------------- comparisons
static i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static T *cmpBase(Kind k, T *base, i64 v);
struct PairHash { size_t operator()(const std::tuple<T*, T*, i64> &p) const { return mix(mix(std::get<0>(p)->id, std::get<1>(p)->id), std::get<2>(p)); } };
static std::unordered_map<std::tuple<T*, T*, i64>, T*, PairHash> cmpMemo;
static T *cmpRaw(Kind k, T *base, i64 v) { bool nw; return mk1(k, base, v, nw); }
static int cmpFold(Kind k, T *b, i64 v) {
  if (k == BLE) return b->hi <= v ? 1 : b->lo > v ? 0 : -1;
  if (k == BGE) return b->lo >= v ? 1 : b->hi < v ? 0 : -1;
  return (b->lo == b->hi && b->lo == v) ? 1 : (v < b->lo || v > b->hi) ? 0 : -1;
}
static T *cmpLin(Kind k, LinB &l) {  // k: BLE: l <= 0 ; BEQ: l == 0 ; BGE: l >= 0
  if (l.t.empty()) return (k == BLE ? l.c <= 0 : k == BGE ? l.c >= 0 : l.c == 0) ? TRUE_ : FALSE_;
  i64 g = 0; for (auto &p : l.t) g = igcd(g, iabs(p.second));
  bool neg = l.t[0].second < 0;
  LinB b; i64 c = -l.c;   // sum {<=,>=,==} c
  for (auto &p : l.t) b.t.push_back({p.first, neg ? -p.second / g : p.second / g});
  if (neg) { c = -c; if (k == BLE) k = BGE; else if (k == BGE) k = BLE; }
  if (k == BEQ) { if (c % g) return FALSE_; c /= g; }
  else if (k == BLE) c = fdiv(c, g);
  else c = -fdiv(-c, g);
  return cmpBase(k, fromLin(b), c);
}
static T *cmpT(Kind k, T *a, i64 v) { // a k v for arbitrary int term a
  int f = cmpFold(k, a, v); if (f >= 0) return f ? TRUE_ : FALSE_;
  if (a->k == ILIN) { LinB l; toLin(a, l); l.c -= v; return cmpLin(k, l); }
  return cmpBase(k, a, v);
}
static T *cmpBase(Kind k, T *base, i64 v) {
  int f = cmpFold(k, base, v); if (f >= 0) return f ? TRUE_ : FALSE_;
  if (k == BEQ) { if (v == base->lo) { k = BLE; } else if (v == base->hi) { k = BGE; } }
  if (base->k == IITE) {
    bool push = base->cleaf && base->leaves <= 400;
    if (!push) push = cmpFold(k, base->ch[1], v) >= 0 || cmpFold(k, base->ch[2], v) >= 0;
    if (push) {
      auto key = std::make_tuple(base, k == BLE ? TRUE_ : k == BGE ? FALSE_ : UNDEF_, v);
      auto it = cmpMemo.find(key); if (it != cmpMemo.end()) return it->second;
      T *r = mkBIte(base->ch[0], cmpT(k, base->ch[1], v), cmpT(k, base->ch[2], v));
      cmpMemo[key] = r; return r;
    }
  }
  if (base->k == IBIT || base->k == IMUL) {
    if (base->k == IMUL && v == 0 && k == BEQ) return mkOr(mkEq(base->ch[0], I(0)), mkEq(base->ch[1], I(0)));
  }
  return cmpRaw(k, base, v);
}
T *mkEq(T *a, T *b) {
  if (a == b) return TRUE_;
  if (a->hi < b->lo || b->hi < a->lo) return FALSE_;
  if (b->k == ICONST) return cmpT(BEQ, a, b->c);
  if (a->k == ICONST) return cmpT(BEQ, b, a->c);
  LinB x, y, r; toLin(a, x); toLin(b, y); addScaled(x, y, -1, r); return cmpLin(BEQ, r);
}
T *mkLe(T *a, T *b) {
  if (a == b) return TRUE_;
  if (a->hi <= b->lo) return TRUE_;
  if (a->lo > b->hi) return FALSE_;
  if (b->k == ICONST) return cmpT(BLE, a, b->c);
  if (a->k == ICONST) return cmpT(BGE, b, a->c);
  LinB x, y, r; toLin(a, x); toLin(b, y); addScaled(x, y, -1, r); return cmpLin(BLE, r);
}

// ---------------------------------------------------------------- booleans
static inline T *keyOf(T *l) {
  if (l->k == BNOT) l = l->ch[0];
  if (l->k == BLE || l->k == BGE || l->k == BEQ) return l->ch[0];
  return l;
}
static inline bool litLess(T *a, T *b) { uint32_t x = keyOf(a)->id, y = keyOf(b)->id; return x != y ? x < y : a->id < b->id; }
T *mkNot(T *a) {
  switch (a->k) {
    case BTRUE: return FALSE_; case BFALSE: return TRUE_;
    case BNOT: return a->ch[0];
    case BLE: return cmpRaw(BGE, a->ch[0], a->c + 1);
    case BGE: return cmpRaw(BLE, a->ch[0], a->c - 1);
    default: { bool nw; return mk1(BNOT, a, 0, nw); }
  }
}
// note: BLE with c == hi-? stays consistent: EQ at range ends is turned into BLE/BGE by cmpBase
void conjOf(T *g, vector<T*> &out) {
  if (g->k == BAND) out.insert(out.end(), g->ch, g->ch + g->n);
  else if (g->k != BTRUE) out.push_back(g);
}
T *mkConj(const vector<T*> &v) {
  if (v.empty()) return TRUE_; if (v.size() == 1) return v[0];
  Proto p; p.k = BAND; p.ch = &v; bool nw; return intern(p, nw);
}
static int impliesLits(T *const *L, size_t n, T *x, T *skip);
static void rangeIn(T *const *L, size_t n, T *base, i64 &lo, i64 &hi, vector<i64> *neq, T *skip) {
  lo = base->lo; hi = base->hi;
  size_t a = 0, b = n; uint32_t id = base->id;
  while (a < b) { size_t m = (a + b) / 2; if (keyOf(L[m])->id < id) a = m + 1; else b = m; }
  for (; a < n && keyOf(L[a])->id == id; a++) {
    T *l = L[a]; if (l == skip) continue;
    if (l->k == BLE) hi = std::min(hi, l->c); else if (l->k == BGE) lo = std::max(lo, l->c);
    else if (l->k == BEQ) { lo = std::max(lo, l->c); hi = std::min(hi, l->c); }
    else if (l->k == BNOT && l->ch[0]->k == BEQ && neq) neq->push_back(l->ch[0]->c);
  }
}
static bool hasLit(T *const *L, size_t n, T *x, T *skip) {
  if (x == skip) return false;
  size_t a = 0, b = n; uint32_t id = keyOf(x)->id;
  while (a < b) { size_t m = (a + b) / 2; if (keyOf(L[m])->id < id) a = m + 1; else b = m; }
  for (; a < n && keyOf(L[a])->id == id; a++) if (L[a] == x) return true;
  return false;
}
static uint32_t impEp = 0; static int impBudget = 0;
static int impliesRec(T *const *L, size_t n, T *x, T *skip);
static int impliesLits(T *const *L, size_t n, T *x, T *skip) { impEp++; impBudget = 400; return impliesRec(L, n, x, skip); }
static int impliesRec(T *const *L, size_t n, T *x, T *skip) {
  switch (x->k) {
    case BTRUE: return 1; case BFALSE: return -1;
    case BNOT: return -impliesRec(L, n, x->ch[0], skip);
    case BLE: case BGE: case BEQ: {
      i64 lo, hi; vector<i64> neq; rangeIn(L, n, x->ch[0], lo, hi, x->k == BEQ ? &neq : nullptr, skip);
      if (x->k == BLE) return hi <= x->c ? 1 : lo > x->c ? -1 : 0;
      if (x->k == BGE) return lo >= x->c ? 1 : hi < x->c ? -1 : 0;
      if (lo == hi && lo == x->c) return 1;
      if (x->c < lo || x->c > hi) return -1;
      for (i64 v : neq) if (v == x->c) return -1;
      return 0;
    }
    case BVAR: if (hasLit(L, n, x, skip)) return 1; { bool nw; T *nx = mk1(BNOT, x, 0, nw); if (hasLit(L, n, nx, skip)) return -1; } return 0;
    case BAND: {
      if (x->ep == impEp) return x->epv;
      if (--impBudget < 0) return 0;
      x->ep = impEp; x->epv = 0;
      bool nw; T *nx = mk1(BNOT, x, 0, nw); if (hasLit(L, n, nx, skip)) return x->epv = -1;
      bool all = true;
      for (uint32_t i = 0; i < x->n; i++) { int r = impliesRec(L, n, x->ch[i], skip); if (r < 0) return x->epv = -1; if (r == 0) { all = false; if (x->n > 64) return 0; } }
      return x->epv = all ? 1 : 0;
    }
    default: return 0;
  }
}
int implies(T *g, T *x) {
  if (x == TRUE_) return 1; if (x == FALSE_) return -1;
  if (g == x) return 1;
  if (g->k == BAND) return impliesLits(g->ch, g->n, x, nullptr);
  T *l[1] = {g}; return impliesLits(l, g->k == BTRUE ? 0 : 1, x, nullptr);
}
struct P2H { size_t operator()(const pair<T*, T*> &p) const { return mix(p.first->id, p.second->id); } };
static std::unordered_map<pair<T*, T*>, T*, P2H> andMemo, orMemo;

T *mkAndN(vector<T*> v) {
  bool again = true;
  while (again) {
    again = false;
    vector<T*> f; f.reserve(v.size() + 8);
    for (T *t : v) { if (t == FALSE_) return FALSE_; conjOf(t, f); }
    std::sort(f.begin(), f.end(), litLess); f.erase(std::unique(f.begin(), f.end()), f.end());
    v.clear();
    for (size_t i = 0; i < f.size();) {
      T *key = keyOf(f[i]); size_t j = i; while (j < f.size() && keyOf(f[j]) == key) j++;
      if (isInt(key)) {
        if (j == i + 1) { v.push_back(f[i]); i = j; continue; }
        i64 lo = key->lo, hi = key->hi; vector<i64> neq;
        for (size_t q = i; q < j; q++) {
          T *l = f[q];
          if (l->k == BLE) hi = std::min(hi, l->c); else if (l->k == BGE) lo = std::max(lo, l->c);
          else if (l->k == BEQ) { lo = std::max(lo, l->c); hi = std::min(hi, l->c); }
          else neq.push_back(l->ch[0]->c);
        }
        std::sort(neq.begin(), neq.end());
        for (i64 x : neq) if (x == lo) lo++;
        for (size_t q = neq.size(); q--;) if (neq[q] == hi) hi--;
        if (lo > hi) return FALSE_;
        if (lo == hi) v.push_back(lo == key->lo ? cmpRaw(BLE, key, lo) : hi == key->hi ? cmpRaw(BGE, key, hi) : cmpRaw(BEQ, key, lo));
        else {
          size_t s = v.size();
          if (lo > key->lo) v.push_back(cmpRaw(BGE, key, lo));
          if (hi < key->hi) v.push_back(cmpRaw(BLE, key, hi));
          for (i64 x : neq) if (x > lo && x < hi) v.push_back(mkNot(cmpRaw(BEQ, key, x)));
          std::sort(v.begin() + s, v.end(), litLess);
        }
      } else {
        if (j - i >= 2) return FALSE_;   // x and not x (duplicates removed)
        v.push_back(f[i]);
      }
      i = j;
    }
    if (v.empty()) return TRUE_;
    if (v.size() <= 48) {
      for (size_t i = 0; i < v.size(); i++) {
        T *l = v[i]; if (l->k != BNOT || l->ch[0]->k != BAND) continue;
        T *a = l->ch[0]; if (a->n > 32) continue;
        vector<T*> keep; bool dropped = false, sat = false;
        for (uint32_t q = 0; q < a->n; q++) {
          int r = impliesLits(v.data(), v.size(), a->ch[q], l);
          if (r > 0) dropped = true; else if (r < 0) { sat = true; break; } else keep.push_back(a->ch[q]);
        }
        if (sat) { v.erase(v.begin() + i); again = true; break; }
        if (dropped) { if (keep.empty()) return FALSE_; v[i] = mkNot(mkConj(keep)); again = true; break; }
      }
    }
  }
  return mkConj(v);
}
T *mkAnd(T *a, T *b) {
  if (a == FALSE_ || b == FALSE_) return FALSE_;
  if (a == TRUE_ || a == b) return b; if (b == TRUE_) return a;
  if (a->id > b->id) std::swap(a, b);
  auto key = std::make_pair(a, b); auto it = andMemo.find(key); if (it != andMemo.end()) return it->second;
  T *r;
  int i = implies(a, b), j;
  if (i == 1) r = a; else if (i == -1) r = FALSE_;
  else if ((j = implies(b, a)) == 1) r = b; else if (j == -1) r = FALSE_;
  else r = mkAndN({a, b});
  andMemo[key] = r; return r;
}
static void splitCommon(T *a, T *b, vector<T*> &com, vector<T*> &ra, vector<T*> &rb) {
  vector<T*> A, B; conjOf(a, A); conjOf(b, B);
  size_t i = 0, j = 0;
  while (i < A.size() && j < B.size()) {
    if (A[i] == B[j]) { com.push_back(A[i]); i++; j++; }
    else if (litLess(A[i], B[j])) ra.push_back(A[i++]); else rb.push_back(B[j++]);
  }
  ra.insert(ra.end(), A.begin() + i, A.end()); rb.insert(rb.end(), B.begin() + j, B.end());
}
T *mkOr(T *a, T *b) {
  if (a == TRUE_ || b == TRUE_) return TRUE_;
  if (a == FALSE_ || a == b) return b; if (b == FALSE_) return a;
  if (a->id > b->id) std::swap(a, b);
  auto key = std::make_pair(a, b); auto it = orMemo.find(key); if (it != orMemo.end()) return it->second;
  T *r;
  if (implies(a, b) == 1) r = b; else if (implies(b, a) == 1) r = a;
  else {
    vector<T*> com, ra, rb; splitCommon(a, b, com, ra, rb);
    if (com.empty() && ra.size() > 1 && rb.size() > 1) r = mkNot(mkAndN({mkNot(a), mkNot(b)}));
    else {
      T *x = mkConj(ra), *y = mkConj(rb);
      T *o;
      if (x == TRUE_ || y == TRUE_ || mkNot(x) == y) o = TRUE_;
      else o = mkNot(mkAndN({mkNot(x), mkNot(y)}));
      if (com.empty()) r = o; else { com.push_back(o); r = mkAndN(com); }
    }
  }
  orMemo[key] = r; return r;
}
T *mkOrN(const vector<T*> &v) {
  vector<T*> n; for (T *t : v) { if (t == TRUE_) return TRUE_; n.push_back(mkNot(t)); }
  return mkNot(mkAndN(n));
}
T *mkBIte(T *c, T *a, T *b) {
  if (c == TRUE_) return a; if (c == FALSE_) return b; if (a == b) return a;
  if (a == TRUE_) return mkOr(c, b); if (a == FALSE_) return mkAnd(mkNot(c), b);
  if (b == FALSE_) return mkAnd(c, a); if (b == TRUE_) return mkOr(mkNot(c), a);
  return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
}
void relGuards(const vector<T*> &g, vector<T*> &out) {
  out.clear();
  if (g.size() == 1) { out.push_back(TRUE_); return; }
  vector<T*> com; conjOf(g[0], com);
  for (size_t i = 1; i < g.size() && !com.empty(); i++) {
    vector<T*> B, r; conjOf(g[i], B);
    std::set_intersection(com.begin(), com.end(), B.begin(), B.end(), std::back_inserter(r), litLess); com.swap(r);
  }
  for (T *x : g) { vector<T*> A, r; conjOf(x, A); std::set_difference(A.begin(), A.end(), com.begin(), com.end(), std::back_inserter(r), litLess); out.push_back(mkConj(r)); }
}

// ---------------------------------------------------------------- int ite
static T *flipCond(T *c, bool &flip) {
  flip = false;
  if (c->k == BNOT) { flip = true; return c->ch[0]; }
  if (c->k == BGE) { flip = true; return mkNot(c); }
  return c;
}
T *restrictT(T *v, T *g) {
  if (g == TRUE_) return v;
  for (;;) {
    if (v->k == IITE || v->k == FITE || v->k == PITE) {
      int r = implies(g, v->ch[0]); if (r > 0) v = v->ch[1]; else if (r < 0) v = v->ch[2]; else return v;
    } else if (v->k == ILIN) {
      bool any = false; LinB acc; acc.c = v->c;
      T *res = I(v->c); 
      for (uint32_t i = 0; i < v->n; i++) if (v->ch[i]->k == IITE) { int r = implies(g, v->ch[i]->ch[0]); if (r) { any = true; break; } }
      if (!any) return v;
      for (uint32_t i = 0; i < v->n; i++) res = mkAdd(res, mkMulC(v->ch[i]->k == IITE ? restrictT(v->ch[i], g) : v->ch[i], v->cf[i]));
      return res;
    } else if (v->k == PPTR) { T *o = (T*)v->ch[0]; T *n = restrictT(o, g); return n == o ? v : mkPtr(v->c, n); }
    else if (v->k == FTOK) { T *n = restrictT(v->ch[0], g); return n == v->ch[0] ? v : mkTok(n, v->ch[1]); }
    else if (isBool(v)) { int r = implies(g, v); return r > 0 ? TRUE_ : r < 0 ? FALSE_ : v; }
    else return v;
  }
}
static T *iteRaw(T *c, T *a, T *b) {
  bool nw; T *t = mk3(IITE, c, a, b, nw);
  if (nw) {
    t->lo = std::min(a->lo, b->lo); t->hi = std::max(a->hi, b->hi);
    bool ca = a->k == ICONST || (a->k == IITE && a->cleaf), cb = b->k == ICONST || (b->k == IITE && b->cleaf);
    t->cleaf = ca && cb; if (t->cleaf) { t->leaves = a->leaves + b->leaves; if (t->leaves > 4000) t->cleaf = false; }
  }
  return t;
}
T *mkIIte(T *c, T *a, T *b) {
  if (c == TRUE_) return a; if (c == FALSE_) return b; if (a == b) return a;
  bool flip; c = flipCond(c, flip); if (flip) std::swap(a, b);
  a = restrictT(a, c); b = restrictT(b, mkNot(c));
  if (a == b) return a;
  if (a->k == ICONST && b->k == ICONST) return iteRaw(c, a, b);
  if (a->k == ICONST && b->k == IITE) {
    if (b->ch[1] == a) return mkIIte(mkOr(c, b->ch[0]), a, b->ch[2]);
    if (b->ch[2] == a) return mkIIte(mkAnd(mkNot(c), b->ch[0]), b->ch[1], a);
  }
  if (b->k == ICONST && a->k == IITE) {
    if (a->ch[2] == b) return mkIIte(mkAnd(c, a->ch[0]), a->ch[1], b);
    if (a->ch[1] == b) return mkIIte(mkAnd(c, mkNot(a->ch[0])), a->ch[2], b);
  }
  LinB x, y, com, ra, rb; toLin(a, x); toLin(b, y);
  size_t i = 0, j = 0;
  while (i < x.t.size() || j < y.t.size()) {
    if (j >= y.t.size() || (i < x.t.size() && x.t[i].first->id < y.t[j].first->id)) ra.t.push_back(x.t[i++]);
    else if (i >= x.t.size() || y.t[j].first->id < x.t[i].first->id) rb.t.push_back(y.t[j++]);
    else { if (x.t[i].second == y.t[j].second) com.t.push_back(x.t[i]); else { ra.t.push_back(x.t[i]); rb.t.push_back(y.t[j]); } i++; j++; }
  }
  T *r;
  if (com.t.empty()) {
    // min/max refinement of the range
    r = iteRaw(c, a, b);
    if (r->lo == std::min(a->lo, b->lo) && r->hi == std::max(a->hi, b->hi) && c->k == BLE) {
      LinB d; addScaled(x, y, -1, d);   // a-b
      if (!d.t.empty()) {
        bool neg = d.t[0].second < 0; LinB e; for (auto &p : d.t) e.t.push_back({p.first, neg ? -p.second : p.second});
        T *base = fromLin(e);
        if (base == c->ch[0]) {
          // a-b = s*base + d.c ; c: base <= v
          i64 v = c->c;
          if (!neg && v + d.c <= 0 && v + 1 + d.c >= 0) { r->hi = std::min(a->hi, b->hi); }   // min(a,b)
          if (neg && d.c - v >= 0 && d.c - v - 1 <= 0) { r->lo = std::max(a->lo, b->lo); }    // max(a,b)
        }
      }
    }
    return r;
  }
  com.c = 0; ra.c = x.c; rb.c = y.c;
  if (ra.t.empty() && rb.t.empty()) { i64 m = std::min(ra.c, rb.c); com.c = m; ra.c -= m; rb.c -= m; }
  T *p = fromLin(ra), *q = fromLin(rb);
  return mkAdd(fromLin(com), mkIIte(c, p, q));
}
T *b2i(T *b) { return mkIIte(b, I(1), I(0)); }
T *i2b(T *i) { return mkNot(mkEq(i, I(0))); }

// ---------------------------------------------------------------- candidate values
static std::unordered_map<T*, vector<i64>> candMemo;
bool cands(T *t, vector<i64> &out, size_t cap) {
  out.clear();
  if (t->k == ICONST) { out.push_back(t->c); return true; }
  auto it = candMemo.find(t); if (it != candMemo.end()) { out = it->second; return out.size() <= cap; }
  bool ok = false;
  switch (t->k) {
    case IITE: { vector<i64> a, b; if (cands(t->ch[1], a, cap) && cands(t->ch[2], b, cap)) { std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(out)); ok = true; } break; }
    case ILIN: {
      vector<i64> cur{t->c}; ok = true;
      for (uint32_t i = 0; i < t->n && ok; i++) {
        vector<i64> a, nx; if (!cands(t->ch[i], a, cap) || cur.size() * a.size() > 400000) { ok = false; break; }
        for (i64 x : cur) for (i64 y : a) nx.push_back(x + y * t->cf[i]);
        std::sort(nx.begin(), nx.end()); nx.erase(std::unique(nx.begin(), nx.end()), nx.end());
        if (nx.size() > cap) ok = false;
        cur.swap(nx);
      }
      if (ok) out = cur; break;
    }
    case IMUL: {
      vector<i64> a, b; if (cands(t->ch[0], a, cap) && cands(t->ch[1], b, cap) && a.size() * b.size() <= 400000) {
        for (i64 x : a) for (i64 y : b) out.push_back(x * y);
        std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); ok = true;
      } break;
    }
    case IREM: case IDIV: if (t->ch[1]->k == ICONST) {
      vector<i64> a; if (cands(t->ch[0], a, cap)) { for (i64 x : a) out.push_back(t->k == IREM ? x % t->ch[1]->c : x / t->ch[1]->c); std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); ok = true; }
    } break;
    default: break;
  }
  if (!ok) {
    out.clear();
    i128 n = (i128)t->hi - t->lo + 1; if (n > (i128)cap) return false;
    i64 st = 1, off = t->lo;
    if (t->k == ILIN) { i64 g = 0; for (uint32_t i = 0; i < t->n; i++) g = igcd(g, iabs(t->cf[i])); st = g; i64 r = ((t->lo - t->c) % g + g) % g; off = t->lo + (r ? g - r : 0); }
    for (i64 v = off; v <= t->hi; v += st) out.push_back(v);
    ok = true;
  } else {
    vector<i64> f; for (i64 v : out) if (v >= t->lo && v <= t->hi) f.push_back(v); out.swap(f);
  }
  candMemo[t] = out;
  return out.size() <= cap;
}

// ---------------------------------------------------------------- floating point
T *F(double d) { Proto p; p.k = FCONST; p.d = d; bool nw; if (d == 0 && std::signbit(d)) p.aux = 1; return intern(p, nw); }
T *mkTok(T *code, T *scale) { bool nw; return mk2(FTOK, code, scale, nw); }
T *mkRat(T *n, T *d) {
  if (n->k == ICONST && d->k == ICONST) return F((double)n->c / (double)d->c);
  bool nw; return mk2(FRAT, n, d, nw);
}
static i64 opqc = 0;
T *mkOpq() { return mk0(FOPQ, ++opqc); }
// FLIN: c = number of terms, df = [const, coefs...], cf-like indices kept in ch==none -> store indices as doubles too
T *fLinMake(const vector<pair<int, double>> &v, double c) {
  vector<double> df; df.push_back(c);
  for (auto &p : v) if (p.second != 0) { df.push_back(p.first); df.push_back(p.second); }
  if (df.size() == 1) return F(c);
  Proto p; p.k = FLIN; p.c = df.size(); p.df = &df; bool nw; return intern(p, nw);
}
T *mkFVar(int idx) { return fLinMake({{idx, 1.0}}, 0); }
static void linOf(T *t, vector<pair<int, double>> &v, double &c) {
  if (t->k == FCONST) { c = t->d; return; }
  c = t->df[0]; for (i64 i = 1; i < t->c; i += 2) v.push_back({(int)t->df[i], t->df[i + 1]});
}
static bool asRat(T *t, T *&n, T *&d) {
  if (t->k == FRAT) { n = t->ch[0]; d = t->ch[1]; return true; }
  if (t->k == FCONST && std::fabs(t->d) < 4e15 && t->d == std::floor(t->d)) { n = I((i64)t->d); d = I(1); return true; }
  if (t->k == FCONST && std::fabs(t->d) < 1e6) { double x = t->d; i64 k = 1; while (k < (1 << 20) && x != std::floor(x)) { x *= 2; k *= 2; } if (x == std::floor(x)) { n = I((i64)x); d = I(k); return true; } }
  return false;
}
T *mkFIte(T *c, T *a, T *b) {
  if (c == TRUE_) return a; if (c == FALSE_) return b; if (a == b) return a;
  bool flip; c = flipCond(c, flip); if (flip) std::swap(a, b);
  a = restrictT(a, c); b = restrictT(b, mkNot(c)); if (a == b) return a;
  if (a->k == FTOK && b->k == FTOK && a->ch[1] == b->ch[1]) return mkTok(mkIIte(c, a->ch[0], b->ch[0]), a->ch[1]);
  if (a->k == FRAT || b->k == FRAT) { T *n, *d, *n2, *d2; if (asRat(a, n, d) && asRat(b, n2, d2) && d == d2) return mkRat(mkIIte(c, n, n2), d); }
  // absorb: ite(c, tok, ite(c2, tok', x)) with equal scales
  if (a->k == FTOK && b->k == FITE && b->ch[1]->k == FTOK && b->ch[1]->ch[1] == a->ch[1])
    return mkFIte(mkOr(c, b->ch[0]), mkTok(mkIIte(c, a->ch[0], b->ch[1]->ch[0]), a->ch[1]), b->ch[2]);
  bool nw; return mk3(FITE, c, a, b, nw);
}
static double rnd(double d, bool flt) { return flt ? (double)(float)d : d; }
static T *distF(T *a, T *b, const std::function<T*(T*, T*)> &f) {
  if (a->k == FITE) return mkFIte(a->ch[0], f(a->ch[1], b), f(a->ch[2], b));
  return mkFIte(b->ch[0], f(a, b->ch[1]), f(a, b->ch[2]));
}
T *fNeg(T *a) { if (a->k == FCONST) return F(-a->d); return fMul(F(-1.0), a, false); }
T *fAdd(T *a, T *b, bool sub, bool flt) {
  if (a->k == FCONST && b->k == FCONST) return F(rnd(sub ? a->d - b->d : a->d + b->d, flt));
  if (b->k == FCONST && b->d == 0) return a;
  if (a->k == FCONST && a->d == 0 && !sub) return b;
  if (a->k == FITE || b->k == FITE) return distF(a, b, [&](T *x, T *y) { return fAdd(x, y, sub, flt); });
  if ((a->k == FLIN || a->k == FCONST) && (b->k == FLIN || b->k == FCONST)) {
    vector<pair<int, double>> x, y, r; double c, e; linOf(a, x, c); linOf(b, y, e); double s = sub ? -1 : 1;
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
      else if (i >= x.size() || y[j].first < x[i].first) { r.push_back({y[j].first, s * y[j].second}); j++; }
      else { r.push_back({x[i].first, x[i].second + s * y[j].second}); i++; j++; }
    }
    return fLinMake(r, c + s * e);
  }
  T *n, *d, *n2, *d2;
  if (asRat(a, n, d) && asRat(b, n2, d2)) {
    if (d == d2) return mkRat(sub ? mkSub(n, n2) : mkAdd(n, n2), d);
    T *x = mkMul(n, d2), *y = mkMul(n2, d); return mkRat(sub ? mkSub(x, y) : mkAdd(x, y), mkMul(d, d2));
  }
  return mkOpq();
}
T *fMul(T *a, T *b, bool flt) {
  if (a->k == FCONST && b->k == FCONST) return F(rnd(a->d * b->d, flt));
  if (a->k == FCONST && a->d == 1.0) return b; if (b->k == FCONST && b->d == 1.0) return a;
  if (a->k == FITE || b->k == FITE) return distF(a, b, [&](T *x, T *y) { return fMul(x, y, flt); });
  if (b->k == FTOK || b->k == FLIN) std::swap(a, b);
  if (a->k == FTOK) { if (b->k == FCONST || b->k == FRAT) return mkTok(a->ch[0], fMul(a->ch[1], b, false)); return mkOpq(); }
  if (a->k == FLIN) {
    if (b->k != FCONST) return mkOpq();
    vector<pair<int, double>> x; double c; linOf(a, x, c); for (auto &p : x) p.second *= b->d; return fLinMake(x, c * b->d);
  }
  T *n, *d, *n2, *d2;
  if (asRat(a, n, d) && asRat(b, n2, d2)) return mkRat(mkMul(n, n2), mkMul(d, d2));
  return mkOpq();
}
T *fDiv(T *a, T *b, bool flt) {
  if (a->k == FCONST && b->k == FCONST) return F(rnd(a->d / b->d, flt));
  if (b->k == FCONST && b->d == 1.0) return a;
  if (a->k == FITE || b->k == FITE) return distF(a, b, [&](T *x, T *y) { return fDiv(x, y, flt); });
  if ((a->k == FTOK || a->k == FLIN) && b->k == FCONST) return fMul(a, F(1.0 / b->d), flt);
  if (a->k == FTOK && b->k == FRAT && b->ch[0]->lo > 0) return fMul(a, mkRat(b->ch[1], b->ch[0]), flt);
  T *n, *d, *n2, *d2;
  if (asRat(a, n, d) && asRat(b, n2, d2)) {
    if (n2->lo > 0) return mkRat(mkMul(n, d2), mkMul(d, n2));
    if (n2->hi < 0) return mkRat(mkMulC(mkMul(n, d2), -1), mkMulC(mkMul(d, n2), -1));
  }
  return mkOpq();
}
static int bvc = 0;
T *fCmp(int pred, T *a, T *b) {
  // LLVM: 0 F,1 OEQ,2 OGT,3 OGE,4 OLT,5 OLE,6 ONE,7 ORD,8 UNO,9 UEQ,10 UGT,11 UGE,12 ULT,13 ULE,14 UNE,15 T
  if (pred == 0) return FALSE_; if (pred == 15) return TRUE_;
  if (a->k == FCONST && b->k == FCONST) {
    double x = a->d, y = b->d; bool un = std::isnan(x) || std::isnan(y), r;
    switch (pred & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x < y || x > y; break; case 7: r = !un; break; default: r = false; }
    if (pred >= 8) r = r || un; else if (pred < 7) r = r && !un;
    return r ? TRUE_ : FALSE_;
  }
  if (pred == 7) return TRUE_; if (pred == 8) return FALSE_;
  if (a->k == FITE) return mkBIte(a->ch[0], fCmp(pred, a->ch[1], b), fCmp(pred, a->ch[2], b));
  if (b->k == FITE) return mkBIte(b->ch[0], fCmp(pred, a, b->ch[1]), fCmp(pred, a, b->ch[2]));
  int q = pred & 7; if (pred >= 8) q = pred - 8;
  T *n, *d, *n2, *d2;
  if (asRat(a, n, d) && asRat(b, n2, d2)) {
    T *x = mkMul(n, d2), *y = mkMul(n2, d);
    switch (q) { case 1: return mkEq(x, y); case 2: return mkLt(y, x); case 3: return mkLe(y, x); case 4: return mkLt(x, y); case 5: return mkLe(x, y); case 6: return mkNot(mkEq(x, y)); }
  }
  auto one = [&](T *r, T *k, int q) -> T* {  // rational r (const den) vs FCONST k
    if (r->k != FRAT || k->k != FCONST || r->ch[1]->k != ICONST) return nullptr;
    long double t = (long double)k->d * r->ch[1]->c; T *n = r->ch[0];
    if (t > 4e18L) return (q == 4 || q == 5 || q == 6) ? TRUE_ : FALSE_;
    if (t < -4e18L) return (q == 2 || q == 3 || q == 6) ? TRUE_ : FALSE_;
    i64 fl = (i64)floorl(t), ce = (i64)ceill(t);
    switch (q) { case 1: return fl == ce ? mkEq(n, I(fl)) : FALSE_; case 6: return fl == ce ? mkNot(mkEq(n, I(fl))) : TRUE_;
      case 2: return mkLe(I(fl + 1), n); case 3: return mkLe(I(ce), n); case 4: return mkLe(n, I(ce - 1)); case 5: return mkLe(n, I(fl)); }
    return nullptr;
  };
  if (T *r = one(a, b, q)) return r;
  static const int sw[8] = {0, 1, 4, 5, 2, 3, 6, 7};
  if (T *r = one(b, a, sw[q])) return r;
  if (a == b && a->k != FOPQ) return (q == 1 || q == 3 || q == 5) ? TRUE_ : FALSE_;
  return mkBVar("fcmp_opaque#" + std::to_string(bvc++));
}

// ---------------------------------------------------------------- pointers etc.
T *mkPtr(int obj, T *off) { Proto p; p.k = PPTR; p.c = obj; p.c2[0] = off; p.nc = 1; bool nw; return intern(p, nw); }
T *mkPIte(T *c, T *a, T *b) {
  if (c == TRUE_) return a; if (c == FALSE_) return b; if (a == b) return a;
  bool flip; c = flipCond(c, flip); if (flip) std::swap(a, b);
  a = restrictT(a, c); b = restrictT(b, mkNot(c)); if (a == b) return a;
  if (a->k == PPTR && b->k == PPTR && a->c == b->c) return mkPtr(a->c, mkIIte(c, a->ch[0], b->ch[0]));
  if (b->k == PITE && a->k == PPTR) {
    if (b->ch[1] == a) return mkPIte(mkOr(c, b->ch[0]), a, b->ch[2]);
    if (b->ch[2] == a) return mkPIte(mkAnd(mkNot(c), b->ch[0]), b->ch[1], a);
  }
  if (a->k == PITE && b->k == PPTR) {
    if (a->ch[2] == b) return mkPIte(mkAnd(c, a->ch[0]), a->ch[1], b);
    if (a->ch[1] == b) return mkPIte(mkAnd(c, mkNot(a->ch[0])), a->ch[2], b);
  }
  bool nw; return mk3(PITE, c, a, b, nw);
}
T *ptrAdd(T *p, T *off) {
  if (off->k == ICONST && off->c == 0) return p;
  if (p->k == PPTR) return mkPtr(p->c, mkAdd(p->ch[0], off));
  if (p->k == PITE) return mkPIte(p->ch[0], ptrAdd(p->ch[1], off), ptrAdd(p->ch[2], off));
  return p;
}
T *mkAgg(const vector<T*> &v) { Proto p; p.k = AGG; p.ch = &v; bool nw; return intern(p, nw); }
T *mkIteAny(T *c, T *a, T *b) {
  if (a == b || c == TRUE_) return a; if (c == FALSE_) return b;
  if (a->k == UNDEFV) return b; if (b->k == UNDEFV) return a;
  if (isBool(a) && isBool(b)) return mkBIte(c, a, b);
  if (isInt(a) && isInt(b)) return mkIIte(c, a, b);
  if (isFp(a) && isFp(b)) return mkFIte(c, a, b);
  if (isPtr(a) && isPtr(b)) return mkPIte(c, a, b);
  if (a->k == AGG && b->k == AGG && a->n == b->n) { vector<T*> v; for (uint32_t i = 0; i < a->n; i++) v.push_back(mkIteAny(c, a->ch[i], b->ch[i])); return mkAgg(v); }
  if (isBool(a) && isInt(b)) return mkIIte(c, b2i(a), b);
  if (isInt(a) && isBool(b)) return mkIIte(c, a, b2i(b));
  if (isPtr(a) && b->k == ICONST && b->c == 0) return mkPIte(c, a, mkPtr(0, I(0)));
  if (isPtr(b) && a->k == ICONST && a->c == 0) return mkPIte(c, mkPtr(0, I(0)), b);
  // differently typed contents merged under guards that are not syntactically exclusive: the integer side is opaque
  if (isFp(a) && (isInt(b) || isPtr(b))) return mkFIte(c, a, mkTok(I(-77), F(1.0)));
  if (isFp(b) && (isInt(a) || isPtr(a))) return mkFIte(c, mkTok(I(-77), F(1.0)), b);
  if (isPtr(a) && isInt(b)) return mkPIte(c, a, mkPtr(1, I(0)));
  if (isPtr(b) && isInt(a)) return mkPIte(c, mkPtr(1, I(0)), b);
  termFatal(("mkIteAny kinds " + std::to_string(a->k) + " " + std::to_string(b->k)).c_str()); return a;
}

// ---------------------------------------------------------------- evaluation, printing
i64 Eval::ev(T *t) {
  if (t->k == ICONST) return t->c;
  if (memo.size() <= t->id) { memo.resize(nterms + 1); have.resize(nterms + 1, 0); }
  if (have[t->id]) return memo[t->id];
  i64 r = 0;
  switch (t->k) {
    case BTRUE: r = 1; break; case BFALSE: r = 0; break;
    case BVAR: case IVAR: r = var(t); break;
    case BNOT: r = !ev(t->ch[0]); break;
    case BAND: r = 1; for (uint32_t i = 0; i < t->n && r; i++) r = ev(t->ch[i]); break;
    case BLE: r = ev(t->ch[0]) <= t->c; break; case BGE: r = ev(t->ch[0]) >= t->c; break; case BEQ: r = ev(t->ch[0]) == t->c; break;
    case ILIN: r = t->c; for (uint32_t i = 0; i < t->n; i++) r += t->cf[i] * ev(t->ch[i]); break;
    case IMUL: r = ev(t->ch[0]) * ev(t->ch[1]); break;
    case IDIV: { i64 b = ev(t->ch[1]); r = b ? ev(t->ch[0]) / b : 0; break; }
    case IREM: { i64 b = ev(t->ch[1]); r = b ? ev(t->ch[0]) % b : 0; break; }
    case IITE: r = ev(t->ch[0]) ? ev(t->ch[1]) : ev(t->ch[2]); break;
    case IBIT: { T *x = mkBit((BitOp)t->aux, I(ev(t->ch[0])), I(ev(t->ch[1])), (int)t->c); r = x->c; break; }
    default: r = 0;
  }
  if (memo.size() <= t->id) { memo.resize(nterms + 1); have.resize(nterms + 1, 0); }
  memo[t->id] = r; have[t->id] = 1; return r;
}
string show(T *t, int d) {
  if (!t) return "NULL";
  if (d < 0) return "..";
  string s;
  switch (t->k) {
    case BTRUE: return "T"; case BFALSE: return "F"; case BVAR: return varName(t); case BNOT: return "!" + show(t->ch[0], d - 1);
    case BAND: s = "("; for (uint32_t i = 0; i < t->n; i++) s += (i ? " & " : "") + show(t->ch[i], d - 1); return s + ")";
    case BLE: return "[" + show(t->ch[0], d - 1) + "<=" + std::to_string(t->c) + "]"; case BGE: return "[" + show(t->ch[0], d - 1) + ">=" + std::to_string(t->c) + "]"; case BEQ: return "[" + show(t->ch[0], d - 1) + "==" + std::to_string(t->c) + "]";
    case ICONST: return std::to_string(t->c); case IVAR: return varName(t);
    case ILIN: s = "("; for (uint32_t i = 0; i < t->n; i++) s += (i ? "+" : "") + std::to_string(t->cf[i]) + "*" + show(t->ch[i], d - 1); return s + "+" + std::to_string(t->c) + ")";
    case IMUL: return "(" + show(t->ch[0], d - 1) + "*" + show(t->ch[1], d - 1) + ")";
    case IDIV: return "(" + show(t->ch[0], d - 1) + "/" + show(t->ch[1], d - 1) + ")"; case IREM: return "(" + show(t->ch[0], d - 1) + "%" + show(t->ch[1], d - 1) + ")";
    case IITE: case FITE: case PITE: return "ite(" + show(t->ch[0], d - 1) + "," + show(t->ch[1], d - 1) + "," + show(t->ch[2], d - 1) + ")";
    case IBIT: return "bit" + std::to_string(t->aux) + "(" + show(t->ch[0], d - 1) + "," + show(t->ch[1], d - 1) + ")";
    case FCONST: return std::to_string(t->d); case FTOK: return "tok(" + show(t->ch[0], d - 1) + "," + show(t->ch[1], d - 1) + ")"; case FRAT: return "rat(" + show(t->ch[0], d - 1) + "/" + show(t->ch[1], d - 1) + ")";
    case FLIN: return "flin"; case FOPQ: return "opq"; case PPTR: return "&" + std::to_string(t->c) + "+" + show(t->ch[0], d - 1);
    case AGG: return "agg"; default: return "undef";
  }
}
