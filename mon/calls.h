#ifndef CALLS_H
#define CALLS_H
#include "mon.h"
struct Bits {
	uint64_t lo, hi;
	bool operator==(const Bits &o) const { return lo == o.lo && hi == o.hi; }
	bool operator!=(const Bits &o) const { return !(*this == o); }
};
/* perform a call through a function table; NaNs are canonicalised */
Bits call_bits(const Type *tab, const Case &c);
/* every callable: kind, function, type (and source type) */
struct Callee {
	int kind, fn, type, src;
};
const std::vector<Callee> &callees();
std::string callee_name(const Callee &c);
/* a call with operands from the workload mixture; correlated with prev */
Case draw_call(Rng &r, const Callee &c, const Case *prev);
/* the structured operand list of a callee (corners, specials, dictionary) */
void structured_calls(std::vector<Case> &v, const Callee &c);
#endif
