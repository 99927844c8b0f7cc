#ifndef MON_H
#define MON_H
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <stdint.h>
#include <string.h>
#include "oracle.h"
#include "types.h"

/* deterministic generator (xoshiro256**), seeded per job */
struct Rng {
	uint64_t s[4];
	static uint64_t mix(uint64_t &x)
	{
		uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t seed = 1)
	{
		for (int i = 0; i < 4; i++) {
			s[i] = mix(seed);
		}
	}
	uint64_t next()
	{
		uint64_t r = s[1] * 5, t = s[1] << 17;
		r = ((r << 7) | (r >> 57)) * 9;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = (s[3] << 45) | (s[3] >> 19);
		return r;
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	double unit() { return (double)(next() >> 11) * 0x1p-53; }
	bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
};

enum Kind { K_NONE, K_UNARY, K_BINARY, K_INT, K_TO32, K_TO64, K_TOEXT, K_FROM32,
	    K_FROM64, K_FROMEXT, K_CONV, K_PREC };

struct Case { /* what is being called right now (shared memory) */
	int kind, fn, type, src;
	int64_t a, b;
	long double f;
};

struct Shared;

struct Options {
	std::string prop, tier, out, workdir, dict;
	uint64_t seed;
	int workers;
	std::set<std::string> known;
	double scale; /* case-count multiplier */
	std::string cov; /* coverage-instrumented build */
	std::vector<std::string> libs; /* further builds of the library */
};
extern Options opt;
bool thorough();

struct Ctx {
	Rng rng;
	int worker;
	Case *cur;
	uint64_t evals;     /* library calls observed */
	uint64_t checks;    /* oracle verdicts */
	uint64_t fails, kfails;
	std::string job;
	std::map<std::string, uint64_t> stat;       /* summed across workers */
	std::map<std::string, double> maxi;         /* maxed across workers */
	std::map<std::string, std::string> maxwit;
	std::map<std::string, uint64_t> keyn;
	std::vector<std::string> samples;
	FILE *log;
	uint64_t reg[NUM_TYPES][2][34];

	void tick(); /* progress mark for the hang detector */
	int64_t U(int fn, int t, int64_t a);
	int64_t B(int fn, int t, int64_t a, int64_t b);
	int64_t I(int fn, int t, int64_t a, int64_t n);
	int P(int t, int64_t a);
	float to32(int t, int64_t a);
	double to64(int t, int64_t a);
	long double toext(int t, int64_t a);
	int64_t from32(int t, float f);
	int64_t from64(int t, double f);
	int64_t fromext(int t, long double f);
	int64_t conv(int to, int from, int64_t a);

	void distinct(uint64_t h); /* count a distinct non-trivial case */
	void note(const std::string &s); /* keep as a sample (few per job) */
	void max_of(const std::string &k, double v, const std::string &wit);
	/* a verdict against the property; kf names the known-finding region
	 * this case falls into (or null) */
	void fail(const std::string &key, const std::string &detail,
		  const char *kf = nullptr);
	void in_regime(int t, int64_t a, bool out);
};

static inline uint64_t h64(uint64_t a, uint64_t b)
{
	uint64_t x = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL);
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

extern Ctx *g_ctx; /* of this worker */
std::string case_str(const Case &c);

struct Job {
	std::string name;
	std::function<void(Ctx &)> run;
};

/* properties register their job lists */
typedef void (*prop_fn)(std::vector<Job> &);
struct PropEntry {
	const char *id;
	prop_fn f;
};
struct RegisterProp {
	RegisterProp(const char *id, prop_fn f);
};
#define PROPERTY(ID) \
	static void prop_##ID(std::vector<Job> &jobs); \
	static RegisterProp reg_##ID(#ID, prop_##ID); \
	static void prop_##ID(std::vector<Job> &jobs)

/* ---- workload generators ------------------------------------------- */

/* every sign x regime x characteristic corner x mantissa corner */
const std::vector<int64_t> &corners(int t);
/* values from the source dictionary, encoded and raw */
const std::vector<int64_t> &dictionary(int t);
const std::vector<int64_t> &dict_ints();
const std::vector<long double> &dict_floats();
/* special arguments of mathematical functions (+- a few ulps) */
const std::vector<int64_t> &specials(int t);
/* a random operand, drawn from a mixture */
int64_t draw(Rng &r, int t);
/* a partner correlated with a */
int64_t draw_partner(Rng &r, int t, int64_t a);
int64_t draw_int(Rng &r);
/* fmt: 0 binary32, 1 binary64, 2 long double */
long double draw_float(Rng &r, int t, int fmt);
int64_t clampt(int t, __int128 v); /* into the type, never NaR */
int64_t sx(int n, uint64_t bits);  /* sign-extend low n bits */

std::string tcase(const char *fn, int t, int64_t a);
std::string tcase2(const char *fn, int t, int64_t a, int64_t b);
std::string hexl(long double f);
uint64_t scaled(uint64_t n);
std::string fnname(const Case &c);

#endif
