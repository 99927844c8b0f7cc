#ifndef GUIDED_H
#define GUIDED_H
#include "calls.h"
/*
 * Coverage-guided operands: for every callee, evolve operands against a build
 * of the library that reports its edges and comparisons, then hand each one
 * that did something new (and its neighbours) to the property's judge.
 */
typedef std::function<void(Ctx &, const Case &)> Judge;
std::vector<Case> evolve(Ctx &c, const Callee &ce, uint64_t execs);
void neighbours(Ctx &c, const Case &k, const Judge &j);
void guided_jobs(std::vector<Job> &jobs, const std::vector<Callee> &cs, const Judge &j, uint64_t execs);
/* all callees of one kind, optionally of some functions and types only */
std::vector<Callee> callees_of(int kind, const std::vector<int> &fns, const std::vector<int> &types);
bool have_cov();
#endif
