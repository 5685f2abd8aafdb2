#include "solver.h"
#include <z3.h>
#include <signal.h>
#include <sys/time.h>
#include <cstring>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <unordered_map>
#include <string>
using std::vector; using std::string;
Stats stats; int gTimeoutMs = 600000;
static Z3_context C; static Z3_solver S; static Z3_model M = nullptr;
static std::unordered_map<T*, Z3_ast> vars;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "ENGINE-ERROR z3: %s\n", Z3_get_error_msg(c, e)); exit(4); }
static Z3_ast R(Z3_ast a) { Z3_inc_ref(C, a); stats.nodes++; return a; }
static Z3_ast ztrue, zfalse;
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, errh);
  const char *lg = getenv("VP_LOGIC");
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, lg ? lg : "QF_FD")); Z3_solver_inc_ref(C, S);
  ztrue = R(Z3_mk_true(C)); zfalse = R(Z3_mk_false(C));
}
static int width(i64 lo, i64 hi) { int w = 1; while (w < 64 && (lo < -((i64)1 << (w - 1)) || hi >= ((i64)1 << (w - 1)))) w++; return w; }
static Z3_ast num(i64 v, int w) {
  uint64_t u = w >= 64 ? (uint64_t)v : (uint64_t)v & ((1ull << w) - 1);
  return R(Z3_mk_unsigned_int64(C, u, Z3_mk_bv_sort(C, w)));
}
static Z3_ast fit(Z3_ast a, int from, int to) {
  if (from == to) return a;
  return R(from < to ? Z3_mk_sign_ext(C, to - from, a) : Z3_mk_extract(C, to - 1, 0, a));
}
static Z3_ast lowB(T *t);
static Z3_ast lowI(T *t, int w);
static Z3_ast lowI0(T *t) {   // at its own width t->loww
  if (t->low) return (Z3_ast)t->low;
  int w = width(t->lo, t->hi); Z3_ast r = nullptr;
  switch (t->k) {
    case ICONST: r = num(t->c, w); break;
    case IVAR: {
      Z3_ast v = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(t->c)).c_str()), Z3_mk_bv_sort(C, w)));
      vars[t] = v; r = v;
      if (t->lo > -((i64)1 << (w - 1))) Z3_solver_assert(C, S, R(Z3_mk_bvsge(C, v, num(t->lo, w))));
      if (w == 64 || t->hi < ((i64)1 << (w - 1)) - 1) Z3_solver_assert(C, S, R(Z3_mk_bvsle(C, v, num(t->hi, w))));
      break;
    }
    case ILIN: {
      r = t->c ? num(t->c, w) : nullptr;
      for (uint32_t i = 0; i < t->n; i++) {
        Z3_ast a = lowI(t->ch[i], w); i64 k = t->cf[i];
        if (k == 1) r = r ? R(Z3_mk_bvadd(C, r, a)) : a;
        else if (k == -1) r = r ? R(Z3_mk_bvsub(C, r, a)) : R(Z3_mk_bvneg(C, a));
        else { Z3_ast m = R(Z3_mk_bvmul(C, a, num(k, w))); r = r ? R(Z3_mk_bvadd(C, r, m)) : m; }
      }
      break;
    }
    case IMUL: r = R(Z3_mk_bvmul(C, lowI(t->ch[0], w), lowI(t->ch[1], w))); break;
    case IDIV: case IREM: {
      T *a = t->ch[0], *b = t->ch[1];
      int x = std::max(width(a->lo, a->hi), width(b->lo, b->hi)) + 1;
      Z3_ast za = lowI(a, x), zb = lowI(b, x), q;
      if (a->lo >= 0 && b->k == ICONST && b->c > 0 && (b->c & (b->c - 1)) == 0) {
        int s = 0; while (((i64)1 << s) < b->c) s++;
        if (t->k == IDIV) q = R(Z3_mk_bvlshr(C, za, num(s, x))); else q = R(Z3_mk_bvand(C, za, num(b->c - 1, x)));
      } else if (a->lo >= 0 && b->lo >= 0) q = R(t->k == IDIV ? Z3_mk_bvudiv(C, za, zb) : Z3_mk_bvurem(C, za, zb));
      else q = R(t->k == IDIV ? Z3_mk_bvsdiv(C, za, zb) : Z3_mk_bvsrem(C, za, zb));
      r = fit(q, x, w); break;
    }
    case IITE: r = R(Z3_mk_ite(C, lowB(t->ch[0]), lowI(t->ch[1], w), lowI(t->ch[2], w))); break;
    case IBIT: {
      int x = (int)t->c; Z3_ast a = lowI(t->ch[0], x), b = t->aux == OP_WRAP ? nullptr : lowI(t->ch[1], x), q = nullptr;
      switch (t->aux) {
        case OP_WRAP: q = a; break; case OP_AND: q = Z3_mk_bvand(C, a, b); break; case OP_OR: q = Z3_mk_bvor(C, a, b); break; case OP_XOR: q = Z3_mk_bvxor(C, a, b); break;
        case OP_SHL: q = Z3_mk_bvshl(C, a, b); break; case OP_LSHR: q = Z3_mk_bvlshr(C, a, b); break; case OP_ASHR: q = Z3_mk_bvashr(C, a, b); break;
        case OP_MULW: q = Z3_mk_bvmul(C, a, b); break; case OP_ADDW: q = Z3_mk_bvadd(C, a, b); break; case OP_UDIV: q = Z3_mk_bvudiv(C, a, b); break; case OP_UREM: q = Z3_mk_bvurem(C, a, b); break;
      }
      r = fit(R(q), x, w); break;
    }
    default: fprintf(stderr, "ENGINE-ERROR lowI kind %d\n", t->k); exit(4);
  }
  t->low = r; t->loww = w; return r;
}
static Z3_ast lowI(T *t, int w) { if (t->k == ICONST) return num(t->c, w); Z3_ast a = lowI0(t); return fit(a, t->loww, w); }
static Z3_ast lowB(T *t) {
  if (t == TRUE_) return ztrue; if (t == FALSE_) return zfalse;
  if (t->low) return (Z3_ast)t->low;
  Z3_ast r = nullptr;
  switch (t->k) {
    case BVAR: r = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("b" + std::to_string(t->c)).c_str()), Z3_mk_bool_sort(C))); vars[t] = r; break;
    case BNOT: r = R(Z3_mk_not(C, lowB(t->ch[0]))); break;
    case BAND: { vector<Z3_ast> v; for (uint32_t i = 0; i < t->n; i++) v.push_back(lowB(t->ch[i])); r = R(Z3_mk_and(C, v.size(), v.data())); break; }
    case BLE: case BGE: case BEQ: {
      T *b = t->ch[0]; int w = std::max(width(b->lo, b->hi), width(t->c, t->c));
      // move the constant into the comparison at a width that holds both sides
      Z3_ast a = lowI(b, w), c = num(t->c, w);
      r = R(t->k == BLE ? Z3_mk_bvsle(C, a, c) : t->k == BGE ? Z3_mk_bvsge(C, a, c) : Z3_mk_eq(C, a, c)); break;
    }
    default: fprintf(stderr, "ENGINE-ERROR lowB kind %d\n", t->k); exit(4);
  }
  t->low = r; return r;
}
void solverAssert(T *c) { if (c == TRUE_) return; Z3_solver_assert(C, S, lowB(c)); }
static void onAlarm(int) { Z3_interrupt(C); }   // no z3 timer threads: the engine forks
static void armTimer(int ms) { static bool init = false; if (!init) { signal(SIGALRM, onAlarm); init = true; } struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = ms / 1000; t.it_value.tv_usec = (ms % 1000) * 1000; setitimer(ITIMER_REAL, &t, nullptr); }
static int proxyN = 0;
int solverCheck(T *c, bool wantModel) {
  if (c == FALSE_) return 0;
  double t0 = now();
  Z3_ast e = lowB(c);
  Z3_ast p = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("q" + std::to_string(proxyN++)).c_str()), Z3_mk_bool_sort(C)));
  Z3_solver_assert(C, S, R(Z3_mk_implies(C, p, e)));
  if (const char *df = getenv("VP_DUMP")) if (getenv("VP_DUMPQ") && atoi(getenv("VP_DUMPQ")) == proxyN) { Z3_ast_vector av = Z3_solver_get_assertions(C, S); Z3_ast_vector_inc_ref(C, av); Z3_solver D = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, D); for (unsigned i = 0; i < Z3_ast_vector_size(C, av); i++) Z3_solver_assert(C, D, Z3_ast_vector_get(C, av, i)); Z3_solver_assert(C, D, p); FILE *f = fopen(df, "w"); fputs("(set-logic QF_BV)\n", f); fputs(Z3_solver_to_string(C, D), f); fputs("(check-sat)\n", f); fclose(f); Z3_solver_dec_ref(C, D); if (getenv("VP_DUMPEXIT")) exit(5); }
  armTimer(gTimeoutMs); Z3_lbool r = Z3_solver_check_assumptions(C, S, 1, &p); armTimer(0);
  stats.queries++; stats.secs += now() - t0;
  if (getenv("VP_SLOW") && now() - t0 > 1) fprintf(stderr, "slow query %d: %.1fs result %d\n", proxyN, now() - t0, r);
  if (r == Z3_L_TRUE) {
    stats.sat++;
    if (wantModel) { if (M) Z3_model_dec_ref(C, M); M = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, M); }
  } else if (r == Z3_L_FALSE) stats.unsat++; else stats.unknown++;
  Z3_solver_assert(C, S, R(Z3_mk_not(C, p)));
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
bool modelHas(T *t) { return vars.count(t); }
i64 modelVal(T *t) {
  auto it = vars.find(t); if (it == vars.end()) return t->k == IVAR ? t->lo : 0;
  Z3_ast out; if (!Z3_model_eval(C, M, it->second, true, &out)) return 0;
  Z3_inc_ref(C, out);
  if (t->k == BVAR) return Z3_get_bool_value(C, out) == Z3_L_TRUE;
  uint64_t u = 0; Z3_get_numeral_uint64(C, out, &u); int w = t->loww;
  if (w < 64 && (u >> (w - 1)) & 1) u |= ~((1ull << w) - 1);
  return (i64)u;
}
static Z3_solver SR = nullptr; static std::unordered_map<int, Z3_ast> rv;
static Z3_ast rat(double d) { char b[64]; // exact decimal via integer ratio of 2^-60 grid
  long double s = d; snprintf(b, sizeof b, "%.0Lf/1152921504606846976", s * 1152921504606846976.0L); return R(Z3_mk_numeral(C, b, Z3_mk_real_sort(C))); }
int lraExceeds(const vector<std::pair<int,double>> &v, double c, double eps, std::map<int,double> &wit) {
  double t0 = now();
  if (!SR) { SR = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_LRA")); Z3_solver_inc_ref(C, SR); }
  Z3_solver_push(C, SR);
  vector<Z3_ast> sum; sum.push_back(rat(c));
  for (auto &p : v) {
    if (!rv.count(p.first)) rv[p.first] = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("x" + std::to_string(p.first)).c_str()), Z3_mk_real_sort(C)));
    Z3_ast x = rv[p.first];
    Z3_solver_assert(C, SR, R(Z3_mk_ge(C, x, rat(-1)))); Z3_solver_assert(C, SR, R(Z3_mk_le(C, x, rat(1))));
    Z3_ast m[2] = {rat(p.second), x}; sum.push_back(R(Z3_mk_mul(C, 2, m)));
  }
  Z3_ast s = R(Z3_mk_add(C, sum.size(), sum.data()));
  Z3_ast o[2] = {R(Z3_mk_gt(C, s, rat(eps))), R(Z3_mk_lt(C, s, rat(-eps)))};
  Z3_solver_assert(C, SR, R(Z3_mk_or(C, 2, o)));
  Z3_lbool r = Z3_solver_check(C, SR);
  stats.queries++; stats.lra++; stats.secs += now() - t0;
  if (r == Z3_L_TRUE) {
    stats.sat++; Z3_model m = Z3_solver_get_model(C, SR); Z3_model_inc_ref(C, m);
    for (auto &p : v) { Z3_ast out; Z3_model_eval(C, m, rv[p.first], true, &out); Z3_inc_ref(C, out); wit[p.first] = Z3_get_numeral_double(C, out); }
  } else if (r == Z3_L_FALSE) stats.unsat++; else stats.unknown++;
  Z3_solver_pop(C, SR, 1);
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
