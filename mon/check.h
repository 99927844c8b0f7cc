#ifndef CHECK_H
#define CHECK_H
#include "mon.h"

struct Verdict {
	bool ok;
	const char *cls; /* nar, zero, sign, range, accuracy */
	Q want;          /* exact result */
	Q pos;           /* its real position */
	Q excess;        /* beyond the admissible interval, in ulps */
	bool wide;       /* decided only through the argument-error hull */
	bool ill;        /* ill-conditioned: only range/any accepted */
};

/* full verdict on one unary call */
Verdict check_unary(int fn, int t, int64_t a, int64_t out);
Verdict check_binary(int fn, int t, int64_t a, int64_t b, int64_t out);
/* x -> result with explicit perturbation factors; used by integer powers */
std::string describe(int t, const Verdict &v, int64_t out);
std::string lls(int64_t v);

/* known-finding regions; null when the case is in none */
const char *kf_unary(int fn, int t, int64_t a, int64_t out, const Verdict &v);
const char *kf_binary(int fn, int t, int64_t a, int64_t b, int64_t out, const Verdict &v);

void run_unary_case(Ctx &c, int fn, int t, int64_t a);
void run_binary_case(Ctx &c, int fn, int t, int64_t a, int64_t b);
/* jobs driving a list of unary functions over the whole workload mixture */
void unary_jobs(std::vector<Job> &jobs, const std::vector<int> &fns, uint64_t random);
void binary_jobs(std::vector<Job> &jobs, const std::vector<int> &fns,
		 const std::vector<int> &types, uint64_t random);

/* fast acceptance for at most 32 bits: true only when certainly admissible */
long double ld_value(const Type &T, int64_t a);
bool ld_accept(const Type &T, long double y, int64_t out);
/* every step-th operand (pair); whatever is not accepted at once gets the full verdict */
void scan_unary(std::vector<Job> &jobs, const std::vector<int> &fns,
		const std::vector<int> &types, int64_t step);
void scan_binary(std::vector<Job> &jobs, const std::vector<int> &fns,
		 const std::vector<int> &types, int64_t step);
#endif
