/* arithmetic and elementary functions */
#include "check.h"
#include "guided.h"
#include <math.h>

typedef __int128 I128;

static std::vector<int> U_(std::initializer_list<int> l) { return std::vector<int>(l); }
static const std::vector<int> ALLT = {0, 1, 2, 3, 4, 5, 6, 7};
static const std::vector<int> LOGT = {0, 1, 2, 3};
static const std::vector<int> LINT = {4, 5, 6, 7};
static const std::vector<int> T16 = {1, 5}, T32 = {2, 6};

/* unary jobs restricted to some types */
static void unary_jobs_t(std::vector<Job> &jobs, const std::vector<int> &fns, const std::vector<int> &types, uint64_t random)
{
	std::vector<Job> all;
	unary_jobs(all, fns, random);
	for (auto &j : all) {
		for (int t : types) {
			std::string p = std::string(TYPES[t].name) + "_";
			bool mine = j.name.compare(0, p.size(), p) == 0;
			if (mine && !TYPES[t].lin && j.name.compare(0, 13, "takum_linear8") == 0) mine = false;
			if (mine) {
				jobs.push_back(j);
			}
		}
	}
}

/* ---- P07: NaR ---------------------------------------------------------- */

static Domain int_domain(int fn, int64_t a, int64_t n, int64_t nar)
{
	if (a == nar) {
		return D_NAR;
	}
	if (fn == I_integer_power) {
		return a == 0 && n <= 0 ? D_NAR : D_OK;
	}
	return n == 0 || (a < 0 && n % 2 == 0) || (a == 0 && n < 0) ? D_NAR : D_OK;
}
static void nar_unary(Ctx &c, int fn, int t, int64_t a)
{
	const Type &T = TYPES[t];
	int64_t out = c.U(fn, t, a);
	bool want = a == T.nar || or_unary_domain(fn, or_value(T, a)) == D_NAR;
	c.checks++;
	c.in_regime(t, a, false);
	c.distinct(h64(h64((uint64_t)fn, (uint64_t)t), (uint64_t)a));
	c.stat[want ? "expected_nar" : "expected_number"]++;
	if ((out == T.nar) == want) {
		if (c.rng.below(100000) == 0) {
			c.note(tcase(UNARY_NAMES[fn], t, a) + (want ? " is NaR, as required" : " is a number, as required"));
		}
		return;
	}
	Verdict v = check_unary(fn, t, a, out);
	if (!v.ok && ((out == T.nar) || v.cls[0] == 'n')) {
		c.fail(std::string(T.name) + "_" + UNARY_NAMES[fn] + "|nar",
		       tcase(UNARY_NAMES[fn], t, a) + ": " + describe(t, v, out), kf_unary(fn, t, a, out, v));
	}
}
static void nar_binary(Ctx &c, int fn, int t, int64_t a, int64_t b)
{
	const Type &T = TYPES[t];
	int64_t out = c.B(fn, t, a, b);
	bool want;
	if (a == T.nar || b == T.nar) {
		want = true;
	} else if (fn == B_division) {
		want = b == 0;
	} else if (fn == B_power) {
		want = or_binary_domain(fn, or_value(T, a), or_value(T, b)) == D_NAR;
	} else {
		want = false;
	}
	c.checks++;
	c.distinct(h64(h64(h64((uint64_t)fn + 1000, (uint64_t)t), (uint64_t)a), (uint64_t)b));
	c.stat[want ? "expected_nar" : "expected_number"]++;
	if ((out == T.nar) == want) {
		if (c.rng.below(100000) == 0) {
			c.note(tcase2(BINARY_NAMES[fn], t, a, b) + (want ? " is NaR, as required" : " is a number, as required"));
		}
		return;
	}
	Verdict v = check_binary(fn, t, a, b, out);
	if (!v.ok) {
		c.fail(std::string(T.name) + "_" + BINARY_NAMES[fn] + "|nar",
		       tcase2(BINARY_NAMES[fn], t, a, b) + ": " + describe(t, v, out), kf_binary(fn, t, a, b, out, v));
	}
}
static void nar_int(Ctx &c, int fn, int t, int64_t a, int64_t n)
{
	const Type &T = TYPES[t];
	int64_t out = c.I(fn, t, a, n);
	bool want = int_domain(fn, a, n, T.nar) == D_NAR;
	c.checks++;
	c.distinct(h64(h64(h64((uint64_t)fn + 2000, (uint64_t)t), (uint64_t)a), (uint64_t)n));
	c.stat[want ? "expected_nar" : "expected_number"]++;
	if ((out == T.nar) != want) {
		c.fail(std::string(T.name) + "_" + INT_NAMES[fn] + "|nar",
		       tcase2(INT_NAMES[fn], t, a, n) + " = " + lls(out) + (want ? ", expected NaR" : ", expected a number"));
	}
}
static const std::vector<int64_t> &edge_ints()
{
	static std::vector<int64_t> v;
	if (v.empty()) {
		for (int i = -130; i <= 130; i++) v.push_back(i);
		for (int k = 8; k < 63; k++) {
			for (int d = -1; d <= 1; d++) {
				v.push_back(((int64_t)1 << k) + d);
				v.push_back(-((int64_t)1 << k) + d);
			}
		}
		v.push_back(INT64_MAX); v.push_back(INT64_MAX - 1); v.push_back(INT64_MIN); v.push_back(INT64_MIN + 1);
		for (auto i : dict_ints()) {
			v.push_back(i);
			v.push_back((int64_t)(0 - (uint64_t)i));
		}
	}
	return v;
}
PROPERTY(P07)
{
	for (int t : ALLT) {
		for (int fn = 0; fn < NUM_UNARY; fn++) {
			jobs.push_back({std::string(TYPES[t].name) + "_" + UNARY_NAMES[fn], [=](Ctx &c) {
				const Type &T = TYPES[t];
				if (T.n <= 16) {
					for (int64_t a = T.nar; a <= T.maxv; a++) nar_unary(c, fn, t, a);
					return;
				}
				nar_unary(c, fn, t, T.nar);
				nar_unary(c, fn, t, 0);
				int64_t one = (int64_t)1 << (T.n - 2);
				for (int64_t d = -200; d <= 200; d++) { /* around the domain bounds */
					nar_unary(c, fn, t, one + d);
					nar_unary(c, fn, t, -one + d);
					nar_unary(c, fn, t, d);
					nar_unary(c, fn, t, T.maxv - (d + 200));
					nar_unary(c, fn, t, -T.maxv + (d + 200));
				}
				for (int b = 0; b < T.n - 2; b++) {
					for (int s = -1; s <= 1; s += 2) {
						nar_unary(c, fn, t, one + s * ((int64_t)1 << b));
						nar_unary(c, fn, t, -one + s * ((int64_t)1 << b));
					}
				}
				for (auto a : specials(t)) nar_unary(c, fn, t, a);
				for (auto a : corners(t)) nar_unary(c, fn, t, a);
				for (auto a : dictionary(t)) nar_unary(c, fn, t, a);
				for (uint64_t i = 0; i < scaled(20000); i++) nar_unary(c, fn, t, draw(c.rng, t));
			}});
		}
		for (int fn = 0; fn < NUM_BINARY; fn++) {
			jobs.push_back({std::string(TYPES[t].name) + "_" + BINARY_NAMES[fn], [=](Ctx &c) {
				const Type &T = TYPES[t];
				if (T.n == 8) {
					for (int a = -128; a < 128; a++) for (int b = -128; b < 128; b++) nar_binary(c, fn, t, a, b);
					return;
				}
				for (auto a : corners(t)) {
					nar_binary(c, fn, t, a, T.nar);
					nar_binary(c, fn, t, T.nar, a);
					nar_binary(c, fn, t, a, 0);
					nar_binary(c, fn, t, 0, a);
					nar_binary(c, fn, t, a, a);
					nar_binary(c, fn, t, a, a == T.nar ? a : -a);
				}
				if (T.n == 16) {
					for (int64_t a = T.nar; a <= T.maxv; a++) {
						nar_binary(c, fn, t, a, T.nar);
						nar_binary(c, fn, t, T.nar, a);
						nar_binary(c, fn, t, a, 0);
						nar_binary(c, fn, t, 0, a);
					}
				}
				for (uint64_t i = 0; i < scaled(60000); i++) {
					int64_t a = draw(c.rng, t), b = draw_partner(c.rng, t, a);
					nar_binary(c, fn, t, a, b);
					if (i % 4 == 0) {
						nar_binary(c, fn, t, a, T.nar);
						nar_binary(c, fn, t, T.nar, a);
						nar_binary(c, fn, t, a, 0);
					}
				}
			}});
		}
		for (int fn = 0; fn < NUM_INT; fn++) {
			jobs.push_back({std::string(TYPES[t].name) + "_" + INT_NAMES[fn], [=](Ctx &c) {
				const Type &T = TYPES[t];
				int64_t one = (int64_t)1 << (T.n - 2);
				const int64_t as[] = {T.nar, 0, 1, -1, one, -one, one + 1, one - 1, -one - 1, -one + 1, T.maxv, -T.maxv};
				for (auto n : edge_ints()) {
					for (auto a : as) nar_int(c, fn, t, a, n);
					for (int k = 0; k < 40; k++) nar_int(c, fn, t, draw(c.rng, t), n);
				}
				for (uint64_t i = 0; i < scaled(60000); i++) nar_int(c, fn, t, draw(c.rng, t), draw_int(c.rng));
			}});
		}
	}
	guided_jobs(jobs, callees_of(K_UNARY, {}, {}), [](Ctx &c, const Case &k) { nar_unary(c, k.fn, k.type, k.a); }, 10000);
	guided_jobs(jobs, callees_of(K_BINARY, {}, {}), [](Ctx &c, const Case &k) { nar_binary(c, k.fn, k.type, k.a, k.b); }, 30000);
	guided_jobs(jobs, callees_of(K_INT, {}, {}), [](Ctx &c, const Case &k) { nar_int(c, k.fn, k.type, k.a, k.b); }, 30000);
}

/* ---- P08: saturation, zero and sign ------------------------------------ */
static int64_t draw_extreme(Rng &r, int t)
{
	const Type &T = TYPES[t];
	int64_t v;
	switch (r.below(6)) {
	case 0: v = T.maxv - (int64_t)(r.next() >> (64 - 1 - r.below((uint64_t)T.n - 1))); break;
	case 1: v = 1 + (int64_t)(r.next() >> (64 - 1 - r.below((uint64_t)T.n - 1))); break;
	case 2: { /* lambda in the outer regimes */
		Q l = 30 + (Q)(r.unit() * 225);
		v = or_round_pos(T, qmin(qmax(or_pos(T.n, r.next() & 1 ? l : -l), 1), (Q)T.maxv));
		break;
	}
	case 3: { /* magnitudes at which exponentials leave the range */
		Q x = (Q)(40 + r.unit() * 500);
		v = or_encode(T, x);
		break;
	}
	case 4: { /* thresholds of the floating-point formats */
		static const double th[] = {88.72, 103.97, 709.78, 745.13, 11356.5, 11399.5, 38.5, 308.2, 323.3, 4932, 4951, 127, 128, 149, 1023, 1024, 1074, 16383, 16384, 16445, 127.5, 55.3, 183.9, 184, 255};
		v = or_encode(T, (Q)(th[r.below(sizeof th / sizeof *th)] * (1 + (r.unit() - 0.5) * ldexp(1, -(int)r.below(30)))));
		break;
	}
	default: return draw(r, t);
	}
	v = v < 1 ? 1 : v > T.maxv ? T.maxv : v;
	return r.next() & 1 ? v : -v;
}
static void sat_check(Ctx &c, int t, const Verdict &v, int64_t out, const std::string &key,
		      const std::string &what, const char *kf)
{
	const Type &T = TYPES[t];
	if (!qnan(v.pos)) {
		if (v.pos == 0) c.stat["exact_zero"]++;
		else if (qabs(v.pos) >= (Q)T.maxv) c.stat["overflow_saturated"]++;
		else if (qabs(v.pos) <= 1) c.stat["underflow_saturated"]++;
		else c.stat["inside_range"]++;
	}
	if (!v.ok) {
		c.fail(key + "|" + v.cls, what + ": " + describe(t, v, out), kf);
	}
}
static void sat_unary(Ctx &c, int fn, int t, int64_t a)
{
	int64_t out = c.U(fn, t, a);
	Verdict v = check_unary(fn, t, a, out);
	c.checks++;
	c.in_regime(t, out, true);
	c.distinct(h64(h64((uint64_t)fn, (uint64_t)t), (uint64_t)a));
	sat_check(c, t, v, out, std::string(TYPES[t].name) + "_" + UNARY_NAMES[fn], tcase(UNARY_NAMES[fn], t, a),
		  v.ok ? nullptr : kf_unary(fn, t, a, out, v));
}
static void sat_binary(Ctx &c, int fn, int t, int64_t a, int64_t b)
{
	int64_t out = c.B(fn, t, a, b);
	Verdict v = check_binary(fn, t, a, b, out);
	c.checks++;
	c.in_regime(t, out, true);
	c.distinct(h64(h64(h64((uint64_t)fn + 1000, (uint64_t)t), (uint64_t)a), (uint64_t)b));
	sat_check(c, t, v, out, std::string(TYPES[t].name) + "_" + BINARY_NAMES[fn], tcase2(BINARY_NAMES[fn], t, a, b),
		  v.ok ? nullptr : kf_binary(fn, t, a, b, out, v));
}
static void int_case(Ctx &c, int fn, int t, int64_t a, int64_t n);

PROPERTY(P08)
{
	for (int t : ALLT) {
		for (int fn = 0; fn < NUM_UNARY; fn++) {
			jobs.push_back({std::string(TYPES[t].name) + "_" + UNARY_NAMES[fn], [=](Ctx &c) {
				const Type &T = TYPES[t];
				for (int64_t k = 1; k < (T.n == 8 ? 128 : 400); k++) {
					sat_unary(c, fn, t, k); sat_unary(c, fn, t, -k);
					sat_unary(c, fn, t, T.maxv + 1 - k); sat_unary(c, fn, t, -(T.maxv + 1 - k));
				}
				for (auto a : specials(t)) if (c.rng.below(T.n <= 16 ? 1 : 4) == 0) sat_unary(c, fn, t, a);
				for (uint64_t i = 0; i < scaled(T.n == 8 ? 100 : 6000); i++) sat_unary(c, fn, t, draw_extreme(c.rng, t));
			}});
		}
		for (int fn = 0; fn < NUM_BINARY; fn++) {
			jobs.push_back({std::string(TYPES[t].name) + "_" + BINARY_NAMES[fn], [=](Ctx &c) {
				for (uint64_t i = 0; i < scaled(30000); i++) {
					int64_t a = draw_extreme(c.rng, t);
					int64_t b = c.rng.next() & 1 ? draw_extreme(c.rng, t) : draw_partner(c.rng, t, a);
					sat_binary(c, fn, t, a, b);
				}
			}});
		}
		for (int fn = 0; fn < NUM_INT; fn++) {
			jobs.push_back({std::string(TYPES[t].name) + "_" + INT_NAMES[fn], [=](Ctx &c) {
				for (uint64_t i = 0; i < scaled(30000); i++) {
					int64_t a = draw_extreme(c.rng, t), n = draw_int(c.rng);
					if (a != TYPES[t].nar && a != 0 && c.rng.next() & 1) {
						/* power landing near the limits */
						Q l = or_ell(TYPES[t], a);
						if (qabs(l) > 1e-15Q) n = (int64_t)(c.rng.next() & 1 ? 255 / l : -255 / l) + (int64_t)c.rng.below(5) - 2;
					}
					int_case(c, fn, t, a, n);
				}
			}});
		}
	}
	guided_jobs(jobs, callees_of(K_UNARY, {}, {}), [](Ctx &c, const Case &k) { sat_unary(c, k.fn, k.type, k.a); }, 10000);
	guided_jobs(jobs, callees_of(K_BINARY, {}, {}), [](Ctx &c, const Case &k) { sat_binary(c, k.fn, k.type, k.a, k.b); }, 30000);
	guided_jobs(jobs, callees_of(K_INT, {}, {}), [](Ctx &c, const Case &k) { int_case(c, k.fn, k.type, k.a, k.b); }, 30000);
}

/* ---- P09: exact logarithmic arithmetic --------------------------------- */
/* fixed point lambda with 72 fraction bits */
static const int FB = 72;
static I128 fix_lambda(int n, int64_t a)
{
	uint64_t v = a < 0 ? (uint64_t)0 - (uint64_t)a : (uint64_t)a;
	if (n < 12) {
		v <<= 12 - n;
		n = 12;
	}
	int DR = (int)(v >> (n - 5)) & 15, r = DR >= 8 ? DR - 8 : 7 - DR;
	I128 m = (I128)(v & ((1ULL << (n - 5)) - 1)) << (FB - (n - 5 - r));
	I128 bias = DR >= 8 ? (1 << r) - 1 : 1 - (1 << (r + 1));
	return m + bias * ((I128)1 << FB);
}
/* round to nearest, ties to even, saturating; *tie: distance from a midpoint
 * in 2^-20 units of the last place (saturated) */
static int64_t fix_encode(int n, bool neg, I128 l, double *tie)
{
	I128 one = (I128)1 << FB, c, body, q, rem, half;
	int r, DR, sh;
	int64_t mx = (int64_t)((1ULL << (n - 1)) - 1), v;
	*tie = 1;
	if (l >= 255 * one) {
		v = mx;
	} else if (l <= -255 * one) {
		v = 1;
	} else {
		c = l >> FB; /* floor */
		if (c >= 0) {
			for (r = 0; r < 7 && c >= (1 << (r + 1)) - 1; r++)
				;
			DR = 8 + r;
			body = l - (I128)((1 << r) - 1) * one;
		} else {
			for (r = 0; r < 7 && c < 1 - (1 << (r + 1)); r++)
				;
			DR = 7 - r;
			body = l - (I128)(1 - (1 << (r + 1))) * one;
		}
		sh = FB - (n - 5 - r);
		q = body >> sh;
		rem = body - (q << sh);
		half = (I128)1 << (sh - 1);
		*tie = fabs((double)(rem - half) / (double)half) / 2;
		I128 u = ((I128)DR << (n - 5)) + q;
		if (rem > half || (rem == half && (u & 1))) {
			u++;
		}
		v = u < 1 ? 1 : u > mx ? mx : (int64_t)u;
	}
	return neg ? -v : v;
}
static void exact_log(Ctx &c, const char *name, int t, int64_t a, int64_t b, bool two, bool neg, I128 l, int64_t out)
{
	const Type &T = TYPES[t];
	double tie;
	int64_t want = fix_encode(T.n, neg, l, &tie);
	c.checks++;
	c.in_regime(t, a, false);
	c.in_regime(t, out, true);
	if (tie == 0) c.stat["exact_ties"]++;
	if (out == want) {
		if (c.rng.below(100000) == 0) c.note((two ? tcase2(name, t, a, b) : tcase(name, t, a)) + " = " + lls(out));
		return;
	}
	/* 64 bits: the sum of two logarithmic values may need more than the 64
	 * significand bits it is formed with */
	I128 d = (I128)out - want;
	if (T.n == 64 && d >= -1 && d <= 1 && tie <= 0.0625 && out != T.nar && out != 0) {
		c.stat["near_tie_64"]++;
		return;
	}
	c.fail(std::string(T.name) + "_" + name + "|exact",
	       (two ? tcase2(name, t, a, b) : tcase(name, t, a)) + " = " + lls(out) + ", expected " + lls(want));
}
static void log_binary(Ctx &c, int fn, int t, int64_t a, int64_t b)
{
	const Type &T = TYPES[t];
	int64_t out = c.B(fn, t, a, b);
	c.distinct(h64(h64(h64((uint64_t)fn, (uint64_t)t), (uint64_t)a), (uint64_t)b));
	if (a == T.nar || b == T.nar || (fn == B_division && b == 0)) {
		c.checks++;
		if (out != T.nar) c.fail(std::string(T.name) + "_" + BINARY_NAMES[fn] + "|nar", tcase2(BINARY_NAMES[fn], t, a, b) + " = " + lls(out));
		return;
	}
	if (a == 0 || b == 0) {
		c.checks++;
		if (out != 0) c.fail(std::string(T.name) + "_" + BINARY_NAMES[fn] + "|zero", tcase2(BINARY_NAMES[fn], t, a, b) + " = " + lls(out));
		return;
	}
	I128 x = fix_lambda(T.n, a), y = fix_lambda(T.n, b);
	exact_log(c, BINARY_NAMES[fn], t, a, b, true, (a < 0) != (b < 0), fn == B_multiplication ? x + y : x - y, out);
}
static void log_unary(Ctx &c, int fn, int t, int64_t a)
{
	const Type &T = TYPES[t];
	int64_t out = c.U(fn, t, a);
	bool nar = a == T.nar || (fn == U_inversion ? a == 0 : a < 0);
	c.distinct(h64(h64((uint64_t)fn + 50, (uint64_t)t), (uint64_t)a));
	if (nar || a == 0) {
		c.checks++;
		if (out != (nar ? T.nar : 0)) c.fail(std::string(T.name) + "_" + UNARY_NAMES[fn] + "|special", tcase(UNARY_NAMES[fn], t, a) + " = " + lls(out));
		return;
	}
	I128 x = fix_lambda(T.n, a);
	if (fn == U_inversion) {
		exact_log(c, UNARY_NAMES[fn], t, a, 0, false, a < 0, -x, out);
		int64_t back = c.U(fn, t, out);
		if (back != a) {
			c.fail(std::string(T.name) + "_inversion|involution", tcase("inversion", t, a) + " = " + lls(out) + ", inverted again " + lls(back));
		}
	} else {
		exact_log(c, UNARY_NAMES[fn], t, a, 0, false, false, x >> 1, out);
	}
}
/* pairs whose product or quotient lies exactly on or next to a midpoint */
static int64_t tie_partner(Rng &r, int t, int64_t a, int fn)
{
	const Type &T = TYPES[t];
	if (a == 0 || a == T.nar) return draw(r, t);
	/* aim at a result with a much shorter mantissa than both operands */
	Q la = or_ell(T, a), target = (Q)(r.unit() < 0.5 ? -1 : 1) * (Q)(r.unit() * 250);
	int64_t k = or_round_pos(T, qmin(qmax(or_pos(T.n, target), 1), (Q)T.maxv - 1));
	Q mid = (or_lambda(T.n, (uint64_t)k) + or_lambda(T.n, (uint64_t)k + 1)) / 2;
	Q lb = fn == B_multiplication ? mid - la : la - mid;
	int64_t b = or_round_pos(T, qmin(qmax(or_pos(T.n, lb), 1), (Q)T.maxv)) + (int64_t)r.below(3) - 1;
	b = b < 1 ? 1 : b > T.maxv ? T.maxv : b;
	return r.next() & 1 ? b : -b;
}
PROPERTY(P09)
{
	for (int t : LOGT) {
		for (int fn : {B_multiplication, B_division}) {
			std::string b = std::string(TYPES[t].name) + "_" + BINARY_NAMES[fn];
			if (TYPES[t].n == 8) {
				jobs.push_back({b + "/exhaustive", [=](Ctx &c) {
					for (int a = -128; a < 128; a++) for (int x = -128; x < 128; x++) log_binary(c, fn, t, a, x);
				}});
				continue;
			}
			for (int part = 0; part < 32; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(100000); i++) {
						int64_t a = draw(c.rng, t), x;
						switch (c.rng.below(3)) {
						case 0: x = tie_partner(c.rng, t, a, fn); break;
						case 1: x = draw_partner(c.rng, t, a); break;
						default: x = draw(c.rng, t);
						}
						log_binary(c, fn, t, a, x);
						if (TYPES[t].n == 16) {
							for (int k = 0; k < 8; k++) log_binary(c, fn, t, a, sx(16, c.rng.next()));
						}
					}
				}});
			}
		}
		for (int fn : {U_inversion, U_square_root}) {
			std::string b = std::string(TYPES[t].name) + "_" + UNARY_NAMES[fn];
			if (TYPES[t].n <= 16) {
				jobs.push_back({b + "/exhaustive", [=](Ctx &c) {
					for (int64_t a = TYPES[t].nar; a <= TYPES[t].maxv; a++) log_unary(c, fn, t, a);
				}});
				continue;
			}
			for (int part = 0; part < 8; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					if (part == 0) {
						for (auto a : corners(t)) log_unary(c, fn, t, a);
						for (auto a : specials(t)) log_unary(c, fn, t, a);
						for (auto a : dictionary(t)) log_unary(c, fn, t, a);
					}
					for (uint64_t i = 0; i < scaled(200000); i++) log_unary(c, fn, t, draw(c.rng, t));
				}});
			}
		}
	}
	for (int fn : {B_multiplication, B_division}) {
		for (int part = 0; part < 64; part++) {
			jobs.push_back({std::string("scan/takum16_") + BINARY_NAMES[fn] + std::to_string(part), [=](Ctx &c) {
				const int t = 1;
				int64_t step = thorough() ? 1 : 61;
				uint64_t n = 0;
				double tie;
				for (int64_t a = -32768 + part * 1024; a < -32768 + (part + 1) * 1024; a++) {
					for (int64_t b = -32768 + (int64_t)((opt.seed + (uint64_t)(a + 32768)) % (uint64_t)step); b < 32768; b += step) {
						int64_t out = c.B(fn, t, a, b);
						bool odd = a == 0 || b == 0 || a == -32768 || b == -32768;
						if (!(++n & 4095)) c.tick();
						if (odd) {
							log_binary(c, fn, t, a, b);
							continue;
						}
						I128 x = fix_lambda(16, a), y = fix_lambda(16, b);
						if (out != fix_encode(16, (a < 0) != (b < 0), fn == B_multiplication ? x + y : x - y, &tie)) log_binary(c, fn, t, a, b);
					}
				}
				c.checks += n;
				c.stat["scanned_pairs"] += n;
			}});
		}
	}
	for (int fn : {U_inversion, U_square_root}) {
		for (int part = 0; part < 64; part++) {
			jobs.push_back({std::string("scan/takum32_") + UNARY_NAMES[fn] + std::to_string(part), [=](Ctx &c) {
				const int t = 2;
				int64_t step = thorough() ? 1 : 127, a = TYPES[t].nar + ((int64_t)part << 26), end = a + (1 << 26);
				uint64_t n = 0;
				double tie;
				for (a += (int64_t)(opt.seed % (uint64_t)step); a < end; a += step) {
					int64_t out = c.U(fn, t, a);
					if (!(++n & 4095)) c.tick();
					if (a == 0 || a == TYPES[t].nar) {
						log_unary(c, fn, t, a);
						continue;
					}
					I128 x = fix_lambda(32, a);
					bool inv = fn == U_inversion;
					if (!inv && a < 0 ? out != TYPES[t].nar : out != fix_encode(32, inv && a < 0, inv ? -x : x >> 1, &tie)) log_unary(c, fn, t, a);
				}
				c.checks += n;
				c.stat["scanned_arguments"] += n;
			}});
		}
	}
	guided_jobs(jobs, callees_of(K_BINARY, U_({B_multiplication, B_division}), LOGT),
		    [](Ctx &c, const Case &k) { log_binary(c, k.fn, k.type, k.a, k.b); }, 100000);
	guided_jobs(jobs, callees_of(K_UNARY, U_({U_inversion, U_square_root}), LOGT),
		    [](Ctx &c, const Case &k) { log_unary(c, k.fn, k.type, k.a); }, 50000);
}

/* ---- P10: sums, and the linear family's arithmetic ---------------------- */
static bool overlap_hit(Ctx &c, int fn, int t, int64_t a, int64_t b)
{
	run_binary_case(c, fn, t, a, b);
	return true;
}
/* linear operands whose exact sum/product is (nearly) a midpoint */
static void lin_tie_jobs(std::vector<Job> &jobs)
{
	for (int t : LINT) {
		for (int fn : {B_addition, B_subtraction, B_multiplication, B_division}) {
			jobs.push_back({std::string(TYPES[t].name) + "_" + BINARY_NAMES[fn] + "/midpoints", [=](Ctx &c) {
				const Type &T = TYPES[t];
				for (uint64_t i = 0; i < scaled(20000); i++) {
					int64_t a = draw(c.rng, t), k = draw(c.rng, t);
					if (a == 0 || a == T.nar || k == 0 || k == T.nar || k == T.maxv || k == -T.maxv) continue;
					Q x = or_value(T, a), m = (or_value(T, k) + or_value(T, k + 1)) / 2, w;
					switch (fn) {
					case B_addition: w = m - x; break;
					case B_subtraction: w = x - m; break;
					case B_multiplication: w = m / x; break;
					default: w = x / m; break;
					}
					if (w == 0) continue;
					int64_t b = or_encode(T, w);
					for (int d = -1; d <= 1; d++) overlap_hit(c, fn, t, a, clampt(t, (I128)b + d));
				}
			}});
		}
	}
}
PROPERTY(P10)
{
	binary_jobs(jobs, U_({B_addition, B_subtraction}), ALLT, 400000);
	binary_jobs(jobs, U_({B_hypotenuse}), ALLT, 200000);
	binary_jobs(jobs, U_({B_multiplication, B_division}), LINT, 400000);
	unary_jobs_t(jobs, U_({U_inversion, U_square_root}), LINT, 100000);
	lin_tie_jobs(jobs);
	scan_binary(jobs, U_({B_addition, B_subtraction, B_hypotenuse}), T16, thorough() ? 1 : 127);
	scan_binary(jobs, U_({B_multiplication, B_division}), U_({5}), thorough() ? 1 : 127);
	scan_unary(jobs, U_({U_inversion, U_square_root}), U_({6}), thorough() ? 1 : 509);
	Judge un = [](Ctx &c, const Case &k) { run_unary_case(c, k.fn, k.type, k.a); };
	Judge bin = [](Ctx &c, const Case &k) { run_binary_case(c, k.fn, k.type, k.a, k.b); };
	guided_jobs(jobs, callees_of(K_BINARY, U_({B_addition, B_subtraction, B_hypotenuse}), ALLT), bin, 50000);
	guided_jobs(jobs, callees_of(K_BINARY, U_({B_multiplication, B_division}), LINT), bin, 50000);
	guided_jobs(jobs, callees_of(K_UNARY, U_({U_inversion, U_square_root}), LINT), un, 50000);
}

/* ---- P11: integer powers and roots -------------------------------------- */
static bool accept_lambda(const Type &T, bool neg, Q lo, Q hi, Q possl, int64_t out, Q *ex)
{
	Q a = qmin(qmax(or_pos(T.n, lo), 1), (Q)T.maxv) - 0.5Q - possl;
	Q b = qmin(qmax(or_pos(T.n, hi), 1), (Q)T.maxv) + 0.5Q + possl;
	Q o = neg ? -(Q)out : (Q)out;
	*ex = o < a ? o - a : o > b ? o - b : 0;
	return out != T.nar && out != 0 && (out < 0) == neg && o >= a && o <= b;
}
static void int_case(Ctx &c, int fn, int t, int64_t a, int64_t n)
{
	const Type &T = TYPES[t];
	int64_t out = c.I(fn, t, a, n);
	std::string key = std::string(T.name) + "_" + INT_NAMES[fn];
	c.checks++;
	c.in_regime(t, a, false);
	c.in_regime(t, out, true);
	c.distinct(h64(h64(h64((uint64_t)fn + 2000, (uint64_t)t), (uint64_t)a), (uint64_t)n));
	if (int_domain(fn, a, n, T.nar) == D_NAR) {
		if (out != T.nar) {
			c.fail(key + "|nar", tcase2(INT_NAMES[fn], t, a, n) + " = " + lls(out) + ", expected NaR");
		}
		return;
	}
	if (a == 0) {
		if (out != 0) c.fail(key + "|zero", tcase2(INT_NAMES[fn], t, a, n) + " = " + lls(out) + ", expected 0");
		return;
	}
	bool neg = a < 0 && n % 2 != 0, pw = fn == I_integer_power;
	Q an = n < 0 ? -(Q)n : (Q)n, l, tol, pos, ex = 0;
	if (!T.lin) {
		Q l0 = or_ell(T, a);
		l = pw ? l0 * (Q)n : l0 / (Q)n;
		if (T.n <= 16) {
			tol = qabs(l) * q2(-22);
		} else if (T.n == 32) {
			tol = qabs(l) * q2(-51);
		} else if (pw) {
			tol = 2 * an * (qabs(l0) * q2(-64) + q2(-62)) + q2(-60);
		} else {
			tol = qabs(l) * q2(-62);
		}
		pos = T.n == 64 ? 0.125Q : q2(-17);
		if (T.n == 8) pos = q2(-13); /* encoded through 32 bits */
		c.stat[tol * 1e9Q > 1 ? "ill_conditioned" : "well_conditioned"]++;
		if (!accept_lambda(T, neg, l - tol, l + tol, pos, out, &ex)) {
			goto bad;
		}
	} else {
		Q x = qabs(or_value(T, a)), lx = logq(x), ly = pw ? lx * (Q)n : lx / (Q)n, y, fun;
		if (x == 1) ly = 0;
		y = ly > 11000 ? (Q)HUGE_VALQ : ly < -11000 ? 1e-4900Q : expq(ly);
		fun = q2(-60) + qabs(ly) * q2(-62);
		if (pw) fun = q2(-60) + (qabs(ly) < 11000 ? qabs(ly) * q2(-100) : 0);
		if (neg) y = -y;
		l = ly;
		if (!or_accept(T, y, y, qmin(fun, 0.5Q), or_errmodel(T, 0).pos, out, &ex)) {
			goto bad;
		}
		if (out == 0) goto bad;
	}
	if (c.rng.below(50000) == 0) {
		c.note(tcase2(INT_NAMES[fn], t, a, n) + " = " + lls(out));
	}
	return;
bad:
	c.fail(key + "|" + (out == T.nar ? "nar" : out == 0 ? "zero" : (out < 0) != neg ? "sign" : "accuracy"),
	       tcase2(INT_NAMES[fn], t, a, n) + " = " + lls(out) + (out == T.nar ? " (NaR)" : "") + ", exact " +
	       (T.lin ? "logarithm " : "logarithmic value ") + qstr(l) + ", excess " + qstr(ex));
}
PROPERTY(P11)
{
	for (int t : ALLT) {
		for (int fn = 0; fn < NUM_INT; fn++) {
			std::string b = std::string(TYPES[t].name) + "_" + INT_NAMES[fn];
			if (TYPES[t].n == 8) {
				jobs.push_back({b + "/all8", [=](Ctx &c) {
					for (auto n : edge_ints()) for (int a = -128; a < 128; a++) int_case(c, fn, t, a, n);
				}});
			}
			if (TYPES[t].n == 16) {
				for (int n = thorough() ? -130 : -16; n <= (thorough() ? 130 : 16); n++) {
					jobs.push_back({b + "/all16^" + std::to_string(n), [=](Ctx &c) {
						for (int a = -32768; a < 32768; a++) int_case(c, fn, t, a, n);
					}});
				}
			}
			for (int part = 0; part < 4; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(60000); i++) {
						int64_t a = draw(c.rng, t), n = draw_int(c.rng);
						if (a != TYPES[t].nar && a != 0 && c.rng.below(3) == 0) {
							/* a result inside the dynamic range */
							Q l = or_ell(TYPES[t], a), w = (Q)((c.rng.unit() - 0.5) * 520);
							if (fn == I_integer_power ? qabs(l) > 1e-15Q : true) {
								Q q = fn == I_integer_power ? w / l : l / w;
								if (qabs(q) < 9e18Q) n = (int64_t)q;
							}
						}
						int_case(c, fn, t, a, n);
					}
				}});
			}
			jobs.push_back({b + "/structured", [=](Ctx &c) {
				for (auto n : edge_ints()) for (int k = 0; k < 60; k++) int_case(c, fn, t, draw(c.rng, t), n);
				for (auto a : specials(t)) int_case(c, fn, t, a, draw_int(c.rng));
				for (auto a : corners(t)) int_case(c, fn, t, a, (int64_t)c.rng.below(21) - 10);
				for (auto a : dictionary(t)) int_case(c, fn, t, a, (int64_t)c.rng.below(21) - 10);
			}});
		}
	}
	guided_jobs(jobs, callees_of(K_INT, {}, {}), [](Ctx &c, const Case &k) { int_case(c, k.fn, k.type, k.a, k.b); }, 100000);
}

/* ---- P12: powers with a takum exponent ----------------------------------- */
PROPERTY(P12)
{
	binary_jobs(jobs, U_({B_power}), ALLT, 400000);
	scan_binary(jobs, U_({B_power}), T16, thorough() ? 1 : 127);
	for (int t : ALLT) {
		for (int part = 0; part < 4; part++) {
			jobs.push_back({std::string(TYPES[t].name) + "_power/inrange" + std::to_string(part), [=](Ctx &c) {
				const Type &T = TYPES[t];
				for (uint64_t i = 0; i < scaled(40000); i++) {
					int64_t a = draw(c.rng, t), b;
					if (a == 0 || a == T.nar) continue;
					Q lx = logq(qabs(or_value(T, a))), w = (Q)((c.rng.unit() - 0.5) * 260);
					if (lx == 0) continue;
					b = or_encode(T, w / lx);
					run_binary_case(c, B_power, t, a < 0 ? -a : a, b);
					if (a < 0 && T.lin) { /* integral exponent of a negative base */
						b = or_encode(T, roundq(w / lx));
						run_binary_case(c, B_power, t, a, b);
					}
				}
			}});
			jobs.push_back({std::string(TYPES[t].name) + "_power/integers" + std::to_string(part), [=](Ctx &c) {
				const Type &T = TYPES[t];
				for (uint64_t i = 0; i < scaled(10000); i++) {
					int64_t a = draw(c.rng, t), k = (int64_t)c.rng.below(41) - 20;
					if (c.rng.below(4) == 0) k = draw_int(c.rng);
					run_binary_case(c, B_power, t, a, or_encode(T, (Q)k));
					run_binary_case(c, B_power, t, a, or_encode(T, (Q)k + 0.5Q));
				}
			}});
		}
	}
	guided_jobs(jobs, callees_of(K_BINARY, U_({B_power}), {}), [](Ctx &c, const Case &k) { run_binary_case(c, k.fn, k.type, k.a, k.b); }, 100000);
}

/* ---- P13..P15 -------------------------------------------------------------- */
PROPERTY(P13)
{
	unary_jobs(jobs, U_({U_exp, U_2_raised, U_10_raised, U_exp_minus_1, U_2_raised_minus_1, U_10_raised_minus_1,
			     U_ln, U_lb, U_lg, U_ln_1_plus, U_lb_1_plus, U_lg_1_plus}), 100000);
	scan_unary(jobs, U_({U_exp, U_2_raised, U_10_raised, U_exp_minus_1, U_2_raised_minus_1, U_10_raised_minus_1,
			     U_ln, U_lb, U_lg, U_ln_1_plus, U_lb_1_plus, U_lg_1_plus}), T32, thorough() ? 3 : 1021);
	guided_jobs(jobs, callees_of(K_UNARY, U_({U_exp, U_2_raised, U_10_raised, U_exp_minus_1, U_2_raised_minus_1, U_10_raised_minus_1, U_ln, U_lb, U_lg, U_ln_1_plus, U_lb_1_plus, U_lg_1_plus}), {}),
		    [](Ctx &c, const Case &k) { run_unary_case(c, k.fn, k.type, k.a); }, 30000);
}
PROPERTY(P14)
{
	unary_jobs(jobs, U_({U_sin, U_cos, U_tan, U_cot, U_sec, U_csc, U_sin_pi_times, U_cos_pi_times, U_tan_pi_times,
			     U_cot_pi_times, U_sec_pi_times, U_csc_pi_times, U_arcsin, U_arccos, U_arctan, U_arccot, U_arcsec,
			     U_arccsc, U_arcsin_over_pi, U_arccos_over_pi, U_arctan_over_pi, U_arccot_over_pi,
			     U_arcsec_over_pi, U_arccsc_over_pi}), 40000);
	scan_unary(jobs, U_({U_sin, U_cos, U_tan, U_cot, U_sec, U_csc, U_sin_pi_times, U_cos_pi_times, U_tan_pi_times,
			     U_cot_pi_times, U_sec_pi_times, U_csc_pi_times, U_arcsin, U_arccos, U_arctan, U_arccot, U_arcsec,
			     U_arccsc, U_arcsin_over_pi, U_arccos_over_pi, U_arctan_over_pi, U_arccot_over_pi,
			     U_arcsec_over_pi, U_arccsc_over_pi}), T32, thorough() ? 5 : 2039);
	scan_binary(jobs, U_({B_arctan2, B_arctan2_over_pi}), T16, thorough() ? 1 : 127);
	binary_jobs(jobs, U_({B_arctan2, B_arctan2_over_pi}), ALLT, 100000);
	guided_jobs(jobs, callees_of(K_UNARY, U_({U_sin, U_cos, U_tan, U_cot, U_sec, U_csc, U_sin_pi_times, U_cos_pi_times, U_tan_pi_times, U_cot_pi_times, U_sec_pi_times, U_csc_pi_times, U_arcsin, U_arccos, U_arctan, U_arccot, U_arcsec, U_arccsc, U_arcsin_over_pi, U_arccos_over_pi, U_arctan_over_pi, U_arccot_over_pi, U_arcsec_over_pi, U_arccsc_over_pi}), {}),
		    [](Ctx &c, const Case &k) { run_unary_case(c, k.fn, k.type, k.a); }, 30000);
	guided_jobs(jobs, callees_of(K_BINARY, U_({B_arctan2, B_arctan2_over_pi}), {}), [](Ctx &c, const Case &k) { run_binary_case(c, k.fn, k.type, k.a, k.b); }, 50000);
}
PROPERTY(P15)
{
	unary_jobs(jobs, U_({U_sinh, U_cosh, U_tanh, U_coth, U_sech, U_csch, U_arsinh, U_arcosh, U_artanh, U_arcoth,
			     U_arsech, U_arcsch}), 80000);
	scan_unary(jobs, U_({U_sinh, U_cosh, U_tanh, U_coth, U_sech, U_csch, U_arsinh, U_arcosh, U_artanh, U_arcoth,
			     U_arsech, U_arcsch}), T32, thorough() ? 3 : 1021);
	guided_jobs(jobs, callees_of(K_UNARY, U_({U_sinh, U_cosh, U_tanh, U_coth, U_sech, U_csch, U_arsinh, U_arcosh, U_artanh, U_arcoth, U_arsech, U_arcsch}), {}),
		    [](Ctx &c, const Case &k) { run_unary_case(c, k.fn, k.type, k.a); }, 30000);
}

/* ---- P16: absolute value, sign, precision ----------------------------------- */
static void simple_case(Ctx &c, int t, int64_t a)
{
	const Type &T = TYPES[t];
	int64_t one = (int64_t)1 << (T.n - 2);
	int64_t o = c.U(U_absolute, t, a), w = a == T.nar ? T.nar : a < 0 ? -a : a;
	c.checks += 3;
	c.in_regime(t, a, false);
	c.distinct(h64((uint64_t)t, (uint64_t)a));
	if (o != w) c.fail(std::string(T.name) + "_absolute|value", tcase("absolute", t, a) + " = " + lls(o) + ", expected " + lls(w));
	o = c.U(U_sign, t, a);
	w = a == T.nar ? T.nar : a < 0 ? -one : a > 0 ? one : 0;
	if (o != w) c.fail(std::string(T.name) + "_sign|value", tcase("sign", t, a) + " = " + lls(o) + ", expected " + lls(w));
	int p = c.P(t, a), pw = or_precision(T, a);
	if (p != pw) c.fail(std::string(T.name) + "_precision|value", tcase("precision", t, a) + " = " + std::to_string(p) + ", expected " + std::to_string(pw));
	if (c.rng.below(200000) == 0) c.note(tcase("precision", t, a) + " = " + std::to_string(p));
}
PROPERTY(P16)
{
	for (int t : ALLT) {
		if (TYPES[t].n <= 16) {
			jobs.push_back({std::string(TYPES[t].name) + "/exhaustive", [=](Ctx &c) {
				for (int64_t a = TYPES[t].nar; a <= TYPES[t].maxv; a++) simple_case(c, t, a);
			}});
			continue;
		}
		jobs.push_back({std::string(TYPES[t].name) + "/structured", [=](Ctx &c) {
			for (auto a : corners(t)) for (int d = -2; d <= 2; d++) simple_case(c, t, sx(TYPES[t].n, (uint64_t)a + (uint64_t)(int64_t)d));
			for (auto a : specials(t)) simple_case(c, t, a);
			for (auto a : dictionary(t)) simple_case(c, t, a);
		}});
		for (int part = 0; part < 32; part++) {
			jobs.push_back({std::string(TYPES[t].name) + "/random" + std::to_string(part), [=](Ctx &c) {
				for (uint64_t i = 0; i < scaled(200000); i++) simple_case(c, t, i & 1 ? draw(c.rng, t) : sx(TYPES[t].n, c.rng.next()));
			}});
		}
		for (int part = 0; part < 64 && TYPES[t].n == 32; part++) {
			jobs.push_back({std::string("scan/") + TYPES[t].name + std::to_string(part), [=](Ctx &c) {
				int64_t step = thorough() ? 1 : 61, a = TYPES[t].nar + ((int64_t)part << 26), end = a + (1 << 26), one = 1 << 30;
				uint64_t n = 0;
				for (a += (int64_t)(opt.seed % (uint64_t)step); a < end; a += step) {
					uint32_t m = (uint32_t)(a < 0 ? -a : a);
					int r = (int)(m >> 27) & 7;
					if (!(++n & 4095)) c.tick();
					if (a == TYPES[t].nar || c.U(U_absolute, t, a) != (int64_t)m ||
					    c.U(U_sign, t, a) != (a < 0 ? -one : a > 0 ? one : 0) ||
					    c.P(t, a) != 27 - (m >> 30 & 1 ? r : 7 - r)) simple_case(c, t, a);
				}
				c.checks += 3 * n;
				c.stat["scanned_arguments"] += n;
			}});
		}
	}
	guided_jobs(jobs, callees_of(K_UNARY, U_({U_absolute, U_sign}), {}), [](Ctx &c, const Case &k) { simple_case(c, k.type, k.a); }, 30000);
	guided_jobs(jobs, callees_of(K_PREC, {}, {}), [](Ctx &c, const Case &k) { simple_case(c, k.type, k.a); }, 30000);
}

/* ---- P17: published constants ------------------------------------------------ */
static bool const_value(const std::string &full, Q *v)
{
	std::string s = full;
	if (s == "NAR") { *v = nanq(""); return true; }
	if (s == "POSITIVE_MINIMUM") { *v = 1e-4900Q; return true; }
	if (s == "POSITIVE_MAXIMUM") { *v = 1e4900Q; return true; }
	auto p = s.find("_OVER_");
	Q den = 1, num;
	auto atom = [&](const std::string &a, Q *out) {
		if (a == "PI") *out = Q_PI;
		else if (a == "E") *out = expq(1);
		else if (a.size() > 3 && a.compare(a.size() - 3, 3, "_PI") == 0) *out = Q_PI * (Q)atoi(a.c_str());
		else if (a == "PHI") *out = (1 + sqrtq(5)) / 2;
		else if (a == "ONE") *out = 1;
		else if (a == "GAMMA") *out = 0.57721566490153286060651209008240243104215933593992Q;
		else if (a == "LB_10") *out = log2q(10);
		else if (a == "LB_E") *out = 1 / Q_LN2;
		else if (a == "LG_2") *out = log10q(2);
		else if (a == "LG_E") *out = 1 / Q_LN10;
		else if (a == "LN_2") *out = Q_LN2;
		else if (a == "LN_10") *out = Q_LN10;
		else if (a.compare(0, 12, "SQUARE_ROOT_") == 0) *out = sqrtq((Q)atoi(a.c_str() + 12));
		else {
			for (char ch : a) if (ch < '0' || ch > '9') return false;
			*out = (Q)atoi(a.c_str());
			return !a.empty();
		}
		return true;
	};
	if (p != std::string::npos) {
		if (!atom(s.substr(p + 6), &den)) return false;
		s = s.substr(0, p);
	}
	if (!atom(s, &num)) return false;
	*v = num / den;
	return true;
}
PROPERTY(P17)
{
	jobs.push_back({"constants", [](Ctx &c) {
		for (size_t i = 0; i < NUM_CONSTANTS; i++) {
			const Constant &k = CONSTANTS[i];
			const Type &T = TYPES[k.type];
			Q v;
			c.checks++;
			c.evals++;
			if (!const_value(k.name, &v)) {
				c.stat["unrecognised_names"]++;
				c.note(std::string("no model for constant ") + k.name);
				continue;
			}
			int64_t want = qnan(v) ? T.nar : or_encode(T, v);
			c.distinct(h64(i, 17));
			c.note(std::string(T.name) + " " + k.name + " = " + lls(k.value));
			Q ex = 0;
			if (k.value != want && (qnan(v) || T.n != 64 || !or_accept(T, v, v, q2(-63), 0.01Q, k.value, &ex))) {
				c.fail(std::string(T.name) + "_" + k.name + "|constant", std::string(T.name) + " constant " + k.name + " is " + lls(k.value) + ", nearest takum of " + qstr(v) + " is " + lls(want));
			}
			/* and the library itself maps the constant back to the number */
			if (!qnan(v)) {
				Q back = (Q)c.toext(k.type, k.value);
				Q lo = or_value(T, clampt(k.type, (I128)k.value - 1)), hi = or_value(T, clampt(k.type, (I128)k.value + 1));
				if (k.value != 0 && k.value != 1 && k.value != T.maxv && !(back > lo && back < hi)) c.fail(std::string(T.name) + "_" + k.name + "|decode", "decodes to " + qstr(back));
			}
		}
	}});
	/* what translation units of other dialects see: "type macro value flags" */
	for (auto &file : opt.libs) {
		std::string who = file.substr(file.rfind('/') + 1);
		who = who.substr(0, who.rfind('.'));
		jobs.push_back({"dialect " + who, [=](Ctx &c) {
			FILE *f = fopen(file.c_str(), "r");
			char type[64], macro[128], flags[16];
			long long value;
			size_t i = 0;
			while (f && fscanf(f, "%63s %127s %lld %15s", type, macro, &value, flags) == 4 && i < NUM_CONSTANTS) {
				const Constant &k = CONSTANTS[i];
				c.checks++;
				c.evals++;
				c.distinct(h64(i, h64(17, std::hash<std::string>()(who))));
				if (value != k.value) c.fail("dialect|" + std::string(macro) + "|value", std::string(macro) + " is " + lls(value) + " in a " + who + " translation unit, not " + lls(k.value));
				if (strcmp(flags, "1111")) c.fail("dialect|" + std::string(macro) + "|use", std::string(macro) + " in a " + who + " translation unit: as stored takum, under ~, under % and in a signed comparison it acts as its value: " + flags);
				i++;
			}
			if (f) fclose(f);
			c.note(who + ": " + std::to_string(i) + " constants");
		}});
	}
}

PROPERTY(XU) /* exploration: all unary */
{
	std::vector<int> f;
	for (int i = 0; i < NUM_UNARY; i++) {
		f.push_back(i);
	}
	unary_jobs(jobs, f, 20000);
}
PROPERTY(XB)
{
	std::vector<int> f;
	for (int i = 0; i < NUM_BINARY; i++) {
		f.push_back(i);
	}
	binary_jobs(jobs, f, ALLT, 100000);
}
