#pragma once
#include "term.h"
#include <map>
#include <utility>
struct Stats { uint64_t queries = 0, unsat = 0, sat = 0, unknown = 0, feas = 0, lra = 0; double secs = 0; uint64_t nodes = 0; };
extern Stats stats;
extern int gTimeoutMs;
void solverInit();
void solverAssert(T *c);                       // permanent constraint
// 1 sat, 0 unsat, -1 unknown
int solverCheck(T *c, bool wantModel = false);
i64 modelVal(T *var);
bool modelHas(T *var);
// exists x in [-1,1]^n : |sum coef_i x_i + c| > eps ?  1 yes
int lraExceeds(const std::vector<std::pair<int,double>> &v, double c, double eps, std::map<int,double> &witness);
