/* conversions: floats, widths, families, ordering, constants */
#include "check.h"
#include "guided.h"
#include <float.h>
#include <math.h>

/* ---- float generators ----------------------------------------------- */
static float f32_bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static double f64_bits(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static long double ext_parts(bool s, unsigned e, uint64_t m) /* canonical only */
{
	long double f = 0;
	uint16_t se = (uint16_t)((s ? 0x8000 : 0) | (e & 0x7fff));
	if ((e & 0x7fff) != 0) {
		m |= 1ULL << 63;
	} else {
		m &= ~(1ULL << 63);
	}
	memcpy(&f, &m, 8);
	memcpy((char *)&f + 8, &se, 2);
	return f;
}

/* the real number at a (possibly fractional) position of T, as binary128 */
static Q value_at(const Type &T, int64_t k, Q frac)
{
	Q l = or_lambda(T.n, (uint64_t)k), step = 0;
	if (frac != 0) {
		step = (k < T.maxv ? or_lambda(T.n, (uint64_t)k + 1) : (Q)255) - l;
	}
	l += frac * step;
	if (T.lin) {
		Q h = floorq(l);
		return scalbnq(1 + (l - h), (int)h);
	}
	return expq(l / 2);
}

/* a float near an interesting position of T: ties, representables, bounds */
static Q draw_real(Rng &r, int t)
{
	const Type &T = TYPES[t];
	int64_t k = draw(r, t);
	if (k == T.nar || k == 0) {
		k = r.next() & 1 ? 1 : T.maxv;
	}
	bool neg = k < 0;
	k = neg ? -k : k;
	Q f = 0;
	switch (r.below(5)) {
	case 0: f = 0.5Q; break;
	case 1: f = 0.5Q + (Q)((r.unit() - 0.5) * 0x1p-8); break;
	case 2: f = (Q)r.unit(); break;
	case 3: f = 0.5Q + (Q)((r.unit() - 0.5) * ldexp(1, -(int)r.below(40))); break;
	}
	Q x = value_at(T, k, f);
	return neg ? -x : x;
}
static long double pick_dict(Rng &r)
{
	const std::vector<long double> &d = dict_floats();
	const std::vector<int64_t> &i = dict_ints();
	if (!d.empty() && (i.empty() || (r.next() & 1))) {
		long double x = d[r.below(d.size())];
		if (r.chance(1, 4)) {
			x = 1 / x;
		}
		return x;
	}
	return i.empty() ? 1 : (long double)i[r.below(i.size())];
}
static float draw_f32(Rng &r, int t)
{
	float f;
	switch (r.below(8)) {
	case 0: case 1: return f32_bits((uint32_t)r.next());
	case 2: case 3: f = (float)draw_real(r, t); break;
	case 4: { /* sparse mantissas over all exponents */
		uint32_t m = (1u << r.below(23)) - (uint32_t)r.below(2);
		return f32_bits((uint32_t)(r.next() << 31) | (uint32_t)(r.below(256) << 23) | (m & 0x7fffff));
	}
	case 5: f = (float)pick_dict(r); break;
	case 6: f = (float)(1 + (r.unit() - 0.5) * ldexp(1, -(int)r.below(24))); break;
	default: f = (float)((r.unit() - 0.5) * 4); break;
	}
	for (int k = (int)r.below(4); k > 1; k--) {
		f = nextafterf(f, r.next() & 1 ? INFINITY : -INFINITY);
	}
	return r.chance(1, 4) ? -f : f;
}
static double draw_f64(Rng &r, int t)
{
	double f;
	switch (r.below(8)) {
	case 0: case 1: return f64_bits(r.next());
	case 2: case 3: f = (double)draw_real(r, t); break;
	case 4: {
		uint64_t m = (1ULL << r.below(52)) - r.below(2);
		uint64_t e = r.next() & 1 ? r.below(2048) : 1023 - 130 + r.below(260);
		return f64_bits((r.next() << 63) | (e << 52) | (m & 0xfffffffffffffULL));
	}
	case 5: f = (double)pick_dict(r); break;
	case 6: f = 1 + (r.unit() - 0.5) * ldexp(1, -(int)r.below(53)); break;
	default: f = ldexp(r.unit() - 0.5, (int)r.below(512) - 256); break;
	}
	for (int k = (int)r.below(4); k > 1; k--) {
		f = nextafter(f, r.next() & 1 ? INFINITY : -INFINITY);
	}
	return r.chance(1, 4) ? -f : f;
}
static long double draw_ext(Rng &r, int t)
{
	long double f;
	switch (r.below(8)) {
	case 0: return ext_parts(r.next() & 1, (unsigned)r.next(), r.next());
	case 1: return ext_parts(r.next() & 1, 16383 - 130 + (unsigned)r.below(260), r.next());
	case 2: case 3: f = (long double)draw_real(r, t); break;
	case 4: {
		uint64_t m = (1ULL << r.below(63)) - r.below(2);
		unsigned e = r.next() & 1 ? (unsigned)r.below(32768) : 16383 - 130 + (unsigned)r.below(260);
		return ext_parts(r.next() & 1, e, m);
	}
	case 5: f = pick_dict(r); break;
	case 6: f = 1 + (long double)(r.unit() - 0.5) * ldexpl(1, -(int)r.below(64)); break;
	default: f = (long double)draw_f64(r, t); break;
	}
	for (int k = (int)r.below(4); k > 1; k--) {
		f = nextafterl(f, r.next() & 1 ? (long double)INFINITY : -(long double)INFINITY);
	}
	return r.chance(1, 4) ? -f : f;
}

static const char *const FMT[3] = {"float32", "float64", "extended_float"};
static std::string fcase(int t, int fmt, long double f)
{
	return std::string(TYPES[t].name) + "_from_" + FMT[fmt] + "(" + hexl(f) + ")";
}
static int64_t from_any(Ctx &c, int t, int fmt, long double f)
{
	return fmt == 0 ? c.from32(t, (float)f) : fmt == 1 ? c.from64(t, (double)f) : c.fromext(t, f);
}
static long double to_any(Ctx &c, int t, int fmt, int64_t a)
{
	return fmt == 0 ? (long double)c.to32(t, a) : fmt == 1 ? (long double)c.to64(t, a) : c.toext(t, a);
}
static long double draw_any(Rng &r, int t, int fmt)
{
	return fmt == 0 ? (long double)draw_f32(r, t) : fmt == 1 ? (long double)draw_f64(r, t) : draw_ext(r, t);
}
long double draw_float(Rng &r, int t, int fmt) { return draw_any(r, t, fmt); }

/* ---- P01: from floats ------------------------------------------------ */
static void from_case(Ctx &c, int t, int fmt, long double f)
{
	const Type &T = TYPES[t];
	int64_t out = from_any(c, t, fmt, f);
	c.checks++;
	c.in_regime(t, out, true);
	if (f != f || std::isinf(f)) {
		if (out != T.nar) {
			c.fail(std::string(T.name) + "_from_" + FMT[fmt] + "|special",
			       fcase(t, fmt, f) + " = " + lls(out) + ", expected NaR");
		}
		c.stat["nan_or_inf"]++;
		return;
	}
	if (f == 0) {
		if (out != 0) {
			c.fail(std::string(T.name) + "_from_" + FMT[fmt] + "|zero",
			       fcase(t, fmt, f) + " = " + lls(out) + ", expected 0");
		}
		return;
	}
	uint64_t hb = 0, he = 0;
	memcpy(&hb, &f, 8);
	memcpy(&he, (char *)&f + 8, 2);
	c.distinct(h64(h64((uint64_t)(t * 4 + fmt), hb), he));
	Q x = (Q)f, pos = or_spos(T, x), ex = 0;
	ErrModel e = or_errmodel(T, 0);
	bool ok = out != 0 && (out < 0) == (f < 0) &&
		  or_accept(T, x, x, T.lin ? 0 : q2(-62), e.pos, out, &ex);
	if (pos == 1 || pos == -1 || qabs(pos) == (Q)T.maxv) {
		c.stat["saturated"]++;
	}
	if (ok && T.lin && qabs(pos) - floorq(qabs(pos)) == 0.5Q) {
		/* a tie that the encoder can see exactly */
		Q l = or_lambda_of(true, qabs(x));
		if (l == (Q)(long double)l && qabs(l) < 255 && (T.n > 16 || l == (Q)(float)l)) {
			c.stat["exact_ties"]++;
			if (out != or_round_pos(T, pos)) {
				ok = false;
				ex = 0;
			}
		}
	}
	if (ok && T.lin && pos == floorq(pos)) {
		c.stat["exactly_representable"]++;
		ok = (Q)out == pos || (T.n == 64 && !((Q)(long double)or_lambda_of(true, qabs(x)) == or_lambda_of(true, qabs(x))));
	}
	if (!ok) {
		c.fail(std::string(T.name) + "_from_" + FMT[fmt] + (out == 0 ? "|zero" : out == T.nar ? "|nar" : "|nearest"),
		       fcase(t, fmt, f) + " = " + lls(out) + ", exact position " + qstr(pos) + ", excess " + qstr(ex));
	} else if (c.rng.below(30000) == 0) {
		c.note(fcase(t, fmt, f) + " = " + lls(out) + ", exact position " + qstr(pos));
	}
}

static void edge_floats(std::vector<long double> &v, int fmt)
{
	static const long double base[] = {0.0L, INFINITY, FLT_MIN, FLT_MAX, 0x1p-149L, 0x1.8p-148L, FLT_EPSILON, 1, 2, 0.5L, 10, 0.1L};
	static const long double b64[] = {DBL_MIN, DBL_MAX, 0x1p-1074L, 0x1p-1022L, 0x1p1023L, 1e100L, 1e-100L, 1e308L};
	static const long double bext[] = {LDBL_MIN, LDBL_MAX, 0x1p-16445L, 0x1p-16382L, 1e4000L, 1e-4000L, 0x1p-16400L};
	for (auto x : base) { v.push_back(x); v.push_back(-x); }
	if (fmt >= 1) for (auto x : b64) { v.push_back(x); v.push_back(-x); }
	if (fmt >= 2) for (auto x : bext) { v.push_back(x); v.push_back(-x); }
	v.push_back(NAN);
	v.push_back(-(long double)NAN);
	v.push_back((long double)nan("0x7ffff"));
	v.push_back(-(long double)nanf("0x12345"));
	int lo = fmt == 0 ? -149 : fmt == 1 ? -1074 : -16445, hi = fmt == 0 ? 127 : fmt == 1 ? 1023 : 16383;
	for (int e = lo; e <= hi; e += (e > -300 && e < 300) ? 1 : 97) {
		long double p = ldexpl(1, e);
		v.push_back(p); v.push_back(-p); v.push_back(p * 1.5L); v.push_back(-p * 1.5L);
	}
	size_t n = v.size();
	for (size_t i = 0; i < n; i++) {
		long double x = v[i];
		if (x != x) continue;
		if (fmt == 0) { v.push_back(nextafterf((float)x, INFINITY)); v.push_back(nextafterf((float)x, -INFINITY)); }
		else if (fmt == 1) { v.push_back(nextafter((double)x, INFINITY)); v.push_back(nextafter((double)x, -INFINITY)); }
		else { v.push_back(nextafterl(x, INFINITY)); v.push_back(nextafterl(x, -INFINITY)); }
	}
}
static long double cut(int fmt, Q x) { return fmt == 0 ? (long double)(float)x : fmt == 1 ? (long double)(double)x : (long double)x; }

PROPERTY(P01)
{
	for (int t = 0; t < NUM_TYPES; t++) {
		for (int fmt = 0; fmt < 3; fmt++) {
			std::string b = std::string(TYPES[t].name) + "_from_" + FMT[fmt];
			jobs.push_back({b + "/edges", [=](Ctx &c) {
				std::vector<long double> v;
				edge_floats(v, fmt);
				for (auto f : v) from_case(c, t, fmt, fmt == 0 ? (long double)(float)f : fmt == 1 ? (long double)(double)f : f);
				for (auto f : dict_floats()) {
					for (int k = -1; k <= 1; k++) {
						long double g = cut(fmt, (Q)f);
						if (k) g = fmt == 0 ? (long double)nextafterf((float)g, (float)k * INFINITY) :
							   fmt == 1 ? (long double)nextafter((double)g, k * INFINITY) :
							   nextafterl(g, k * (long double)INFINITY);
						from_case(c, t, fmt, g);
						from_case(c, t, fmt, -g);
						if (g != 0) from_case(c, t, fmt, cut(fmt, (Q)(1 / g)));
					}
				}
				for (auto i : dict_ints()) {
					from_case(c, t, fmt, cut(fmt, (Q)i));
					/* dictionary integers as bit patterns */
					from_case(c, t, fmt, fmt == 0 ? (long double)f32_bits((uint32_t)i) :
						  fmt == 1 ? (long double)f64_bits((uint64_t)i) :
						  ext_parts(false, 16383, (uint64_t)i));
				}
				/* NaN payloads of either sign */
				for (int k = 0; k < 52; k++) {
					if (fmt == 0 && k < 22) from_case(c, t, fmt, f32_bits(0x7fc00000u | (1u << k)));
					if (fmt == 1) from_case(c, t, fmt, f64_bits(0xfff8000000000000ULL | (1ULL << k)));
				}
			}});
			if (TYPES[t].n <= 16) {
				/* every representable value, every midpoint, and their
				 * neighbours */
				jobs.push_back({b + "/midpoints", [=](Ctx &c) {
					const Type &T = TYPES[t];
					for (int64_t k = 1; k <= T.maxv; k++) {
						for (int h = 0; h < 2; h++) {
							Q x = value_at(T, k, h ? 0.5Q : 0);
							long double f = cut(fmt, x), s = c.rng.next() & 1 ? 1 : -1;
							from_case(c, t, fmt, s * f);
							if (fmt == 0) {
								from_case(c, t, fmt, s * (long double)nextafterf((float)f, INFINITY));
								from_case(c, t, fmt, s * (long double)nextafterf((float)f, -INFINITY));
							} else if (fmt == 1) {
								from_case(c, t, fmt, s * (long double)nextafter((double)f, INFINITY));
								from_case(c, t, fmt, s * (long double)nextafter((double)f, -INFINITY));
							} else {
								from_case(c, t, fmt, s * nextafterl(f, INFINITY));
								from_case(c, t, fmt, s * nextafterl(f, -(long double)INFINITY));
							}
						}
					}
				}});
			}
			for (int part = 0; part < 4; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(60000); i++) {
						from_case(c, t, fmt, draw_any(c.rng, t, fmt));
					}
				}});
			}
		}
	}
	/* the float32 line end to end, each result next to the exact position */
	for (int t = 0; t < NUM_TYPES; t++) {
		for (int part = 0; part < 64 && TYPES[t].n <= 32; part++) {
			jobs.push_back({std::string("scan/") + TYPES[t].name + "_from_float32_" + std::to_string(part), [=](Ctx &c) {
				int64_t step = thorough() ? 1 : 1021, b = (int64_t)part << 26, end = b + (1 << 26);
				uint64_t n = 0;
				for (b += (int64_t)(opt.seed % (uint64_t)step); b < end; b += step) {
					float f = f32_bits((uint32_t)b);
					int64_t out = c.from32(t, f);
					if (!(++n & 4095)) c.tick();
					if (f != f || std::isinf(f) ? out != TYPES[t].nar : f == 0 || out == 0 || !ld_accept(TYPES[t], f, out)) from_case(c, t, 0, f);
				}
				c.checks += n;
				c.stat["scanned_arguments"] += n;
			}});
		}
	}
	for (int fmt = 0; fmt < 3; fmt++) {
		guided_jobs(jobs, callees_of(K_FROM32 + fmt, {}, {}), [=](Ctx &c, const Case &k) { from_case(c, k.type, fmt, k.f); }, 20000);
	}
}

/* ---- P02: to floats -------------------------------------------------- */
static void to_case(Ctx &c, int t, int fmt, int64_t a)
{
	const Type &T = TYPES[t];
	long double r = to_any(c, t, fmt, a);
	std::string key = std::string(T.name) + "_to_" + FMT[fmt];
	c.checks++;
	c.in_regime(t, a, false);
	if (a == T.nar) {
		if (r == r) {
			c.fail(key + "|nar", key + "(NaR) = " + hexl(r) + ", expected NaN");
		}
		return;
	}
	if (a == 0) {
		if (r != 0) {
			c.fail(key + "|zero", key + "(0) = " + hexl(r));
		}
		return;
	}
	c.distinct(h64((uint64_t)(100 + t * 4 + fmt), (uint64_t)a));
	Q x = or_value(T, a), ax = qabs(x), mx = fmt == 0 ? (Q)FLT_MAX : fmt == 1 ? (Q)DBL_MAX : (Q)LDBL_MAX;
	Q sub = fmt == 0 ? q2(-149) : fmt == 1 ? q2(-1074) : q2(-16445);
	Q err, d;
	bool ok, exact = false;
	if (r != r || (r != 0 && (r < 0) != (a < 0))) {
		c.fail(key + "|sign", key + "(" + lls(a) + ") = " + hexl(r));
		return;
	}
	if (T.lin) {
		/* exactly one rounding */
		long double nearest = fmt == 0 ? (long double)(float)x : fmt == 1 ? (long double)(double)x : (long double)x;
		exact = (Q)nearest == x;
		if (exact) {
			c.stat["exact"]++;
			ok = r == nearest;
		} else {
			ok = r == nearest;
		}
		err = 0;
		d = std::isinf(r) ? 0 : qabs((Q)r - x);
	} else {
		err = or_conv_err(T, a, fmt) * 1.5Q;
		if (std::isinf(r)) {
			ok = ax * (1 + err) >= mx;
			d = 0;
		} else {
			d = qabs((Q)r - x);
			ok = d <= ax * err + sub && !(ax > mx * (1 + err)) ;
			c.max_of("rel." + std::string(T.name) + "." + FMT[fmt], ax > sub * 1e7Q ? (double)(d / (ax * err)) : 0, lls(a));
		}
	}
	if (!ok) {
		c.fail(key + (exact ? "|exact" : "|accuracy"), key + "(" + lls(a) + ") = " + hexl(r) + ", exact value " + qstr(x) +
		       ", off by " + qstr(d / ax) + " relative, allowed " + qstr(err));
	} else if (c.rng.below(30000) == 0) {
		c.note(key + "(" + lls(a) + ") = " + hexl(r) + ", exact value " + qstr(x));
	}
}
static void rt_case(Ctx &c, int t, int fmt, int64_t a);
static bool rt_applies(const Type &T, int fmt, int64_t a);
/* 32-bit arguments end to end: value (or round trip), then the full verdict
 * on whatever is not plainly right */
static void scan_to(std::vector<Job> &jobs, int t, int fmt, bool roundtrip)
{
	for (int part = 0; part < 64; part++) {
		jobs.push_back({std::string("scan/") + TYPES[t].name + "_" + FMT[fmt] + "_" + std::to_string(part), [=](Ctx &c) {
			const Type &T = TYPES[t];
			int64_t step = thorough() ? 1 : 1021, a = T.nar + ((int64_t)part << 26), end = a + (1 << 26);
			uint64_t n = 0;
			for (a += (int64_t)(opt.seed % (uint64_t)step); a < end; a += step) {
				long double r = to_any(c, t, fmt, a);
				if (!(++n & 4095)) c.tick();
				if (roundtrip) {
					if (from_any(c, t, fmt, r) != a) rt_case(c, t, fmt, a);
					continue;
				}
				if (a == 0 || a == T.nar) {
					to_case(c, t, fmt, a);
					continue;
				}
				long double x = ld_value(T, a);
				bool ok;
				if (T.lin) {
					ok = r == (fmt == 0 ? (long double)(float)x : fmt == 1 ? (long double)(double)x : x);
				} else if (fmt == 2) {
					ok = fabsl(r - x) <= fabsl(x) * 0x1p-62L && c.rng.below(512); /* no better than the reference */
				} else {
					/* a sum of roundings: well inside the allowance */
					ok = fabsl(x) > (fmt == 0 ? 0x1p-120L : 0x1p-1000L) && fabsl(x) < (fmt == 0 ? 0x1p126L : 0x1p1000L) &&
					     fabsl(r - x) <= fabsl(x) * (fmt == 0 ? 0x1.8p-24L : 0x1.8p-53L);
				}
				if (!ok) to_case(c, t, fmt, a);
			}
			c.checks += n;
			c.stat["scanned_arguments"] += n;
		}});
	}
}
PROPERTY(P02)
{
	for (int t = 0; t < NUM_TYPES; t++) {
		for (int fmt = 0; fmt < 3; fmt++) {
			std::string b = std::string(TYPES[t].name) + "_to_" + FMT[fmt];
			if (TYPES[t].n <= 16) {
				jobs.push_back({b + "/exhaustive", [=](Ctx &c) {
					for (int64_t a = TYPES[t].nar; a <= TYPES[t].maxv; a++) to_case(c, t, fmt, a);
				}});
				continue;
			}
			jobs.push_back({b + "/structured", [=](Ctx &c) {
				for (auto a : corners(t)) to_case(c, t, fmt, a);
				for (auto a : specials(t)) to_case(c, t, fmt, a);
				for (auto a : dictionary(t)) to_case(c, t, fmt, a);
				/* mantissas on and around a midpoint of the target */
				for (uint64_t i = 0; i < scaled(20000); i++) {
					const Type &T = TYPES[t];
					int64_t a = draw(c.rng, t);
					if (a == T.nar || a == 0) continue;
					uint64_t m = (uint64_t)(a < 0 ? -a : a);
					int R = (int)(m >> (T.n - 5)) & 7, reg = m >> (T.n - 2) & 1 ? R : 7 - R;
					int p = T.n - 5 - reg, keep = fmt == 0 ? 23 : 52, tail = p - keep;
					if (fmt == 2 || tail < 1) continue;
					uint64_t lo = 1ULL << (tail - 1);
					switch (c.rng.below(4)) {
					case 0: lo += 1ULL << c.rng.below((uint64_t)tail); break;
					case 1: lo -= 1ULL << c.rng.below((uint64_t)tail); break;
					case 2: lo += (c.rng.next() & 1) ? 1 : (uint64_t)-1; break;
					}
					m = (m & ~((1ULL << tail) - 1)) | (lo & ((1ULL << tail) - 1));
					to_case(c, t, fmt, a < 0 ? -(int64_t)m : (int64_t)m);
				}
			}});
			for (int part = 0; part < 8; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(80000); i++) to_case(c, t, fmt, draw(c.rng, t));
				}});
			}
		}
	}
	for (int t : {2, 6}) {
		for (int fmt = 0; fmt < 3; fmt++) {
			scan_to(jobs, t, fmt, false);
		}
	}
	for (int fmt = 0; fmt < 3; fmt++) {
		guided_jobs(jobs, callees_of(K_TO32 + fmt, {}, {}), [=](Ctx &c, const Case &k) { to_case(c, k.type, fmt, k.a); }, 20000);
	}
}

/* ---- P03: float round trips are lossless ------------------------------ */
static bool rt_applies(const Type &T, int fmt, int64_t a)
{
	if (fmt == 2) return true;
	if (fmt == 1) return T.n <= 32;
	if (T.n > 16) return false;
	if (a == 0 || a == T.nar) return true;
	/* normal range of float32 */
	Q x = qabs(or_value(T, a));
	return x > q2(-125) && x < (Q)FLT_MAX;
}
static void rt_case(Ctx &c, int t, int fmt, int64_t a)
{
	const Type &T = TYPES[t];
	if (!rt_applies(T, fmt, a)) {
		return;
	}
	long double f = to_any(c, t, fmt, a);
	int64_t out = from_any(c, t, fmt, f);
	c.checks++;
	c.in_regime(t, a, false);
	c.distinct(h64((uint64_t)(200 + t * 4 + fmt), (uint64_t)a));
	if (out != a) {
		c.fail(std::string(T.name) + "_" + FMT[fmt] + "|roundtrip",
		       std::string(T.name) + " " + lls(a) + " -> " + FMT[fmt] + " " + hexl(f) + " -> " + lls(out));
	} else if (c.rng.below(50000) == 0) {
		c.note(std::string(T.name) + " " + lls(a) + " -> " + hexl(f) + " -> " + lls(out));
	}
}
PROPERTY(P03)
{
	for (int t = 0; t < NUM_TYPES; t++) {
		for (int fmt = 0; fmt < 3; fmt++) {
			const Type &T = TYPES[t];
			std::string b = std::string(T.name) + "_" + FMT[fmt];
			if ((fmt == 1 && T.n > 32) || (fmt == 0 && T.n > 16)) {
				continue;
			}
			if (T.n <= 16) {
				jobs.push_back({b + "/exhaustive", [=](Ctx &c) {
					for (int64_t a = TYPES[t].nar; a <= TYPES[t].maxv; a++) rt_case(c, t, fmt, a);
				}});
				continue;
			}
			jobs.push_back({b + "/structured", [=](Ctx &c) {
				for (auto a : corners(t)) rt_case(c, t, fmt, a);
				for (auto a : specials(t)) rt_case(c, t, fmt, a);
				for (auto a : dictionary(t)) rt_case(c, t, fmt, a);
			}});
			for (int part = 0; part < 32; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(150000); i++) {
						rt_case(c, t, fmt, draw(c.rng, t));
					}
				}});
			}
		}
	}
	for (int t : {2, 6}) {
		scan_to(jobs, t, 1, true);
		scan_to(jobs, t, 2, true);
	}
	for (int fmt = 0; fmt < 3; fmt++) {
		guided_jobs(jobs, callees_of(K_TO32 + fmt, {}, {}), [=](Ctx &c, const Case &k) { rt_case(c, k.type, fmt, k.a); }, 20000);
	}
}

/* ---- P04: width changes inside a family ------------------------------- */
static int64_t width_model(int nf, int nt, int64_t a)
{
	if (nt >= nf) {
		return (int64_t)((uint64_t)a << (nt - nf));
	}
	int sh = nf - nt;
	int64_t nar_f = sx(nf, 1ULL << (nf - 1)), nar_t = sx(nt, 1ULL << (nt - 1));
	if (a == nar_f || a == 0) {
		return a == 0 ? 0 : nar_t;
	}
	/* magnitudes: round half to even, then saturate */
	unsigned __int128 m = (unsigned __int128)(a < 0 ? -(__int128)a : (__int128)a);
	unsigned __int128 q = m >> sh, rem = m & (((unsigned __int128)1 << sh) - 1), half = (unsigned __int128)1 << (sh - 1);
	if (rem > half || (rem == half && (q & 1))) {
		q++;
	}
	int64_t mx = (int64_t)((1ULL << (nt - 1)) - 1);
	int64_t v = q == 0 ? 1 : q > (unsigned __int128)mx ? mx : (int64_t)q;
	return a < 0 ? -v : v;
}
static void width_case(Ctx &c, int to, int from, int64_t a)
{
	const Type &F = TYPES[from], &T = TYPES[to];
	int64_t out = c.conv(to, from, a), want = width_model(F.n, T.n, a);
	c.checks++;
	c.distinct(h64((uint64_t)(300 + to * 8 + from), (uint64_t)a));
	if (out != want) {
		c.fail(std::string(T.name) + "_from_" + F.name + "|width",
		       std::string(T.name) + "_from_" + F.name + "(" + lls(a) + ") = " + lls(out) + ", expected " + lls(want));
	} else if (c.rng.below(100000) == 0) {
		c.note(std::string(T.name) + "_from_" + F.name + "(" + lls(a) + ") = " + lls(out));
	}
	if (T.n > F.n) { /* and back */
		int64_t b = c.conv(from, to, out);
		if (b != a) {
			c.fail(std::string(T.name) + "_from_" + F.name + "|back",
			       lls(a) + " widened to " + lls(out) + " came back as " + lls(b));
		}
	}
}
template <class To, class From, To (*F)(From)> static uint64_t sweep32(Ctx &c, int to, int from, int64_t lo, int64_t hi)
{
	const int sh = 32 - 8 * (int)sizeof(To);
	const int32_t mx = (int32_t)((1u << (8 * sizeof(To) - 1)) - 1);
	(void)c.conv(to, from, lo);
	for (int64_t x = lo; x < hi; x++) {
		int32_t a = (int32_t)x;
		To out = F(a);
		int32_t want;
		if (a == INT32_MIN) {
			want = -mx - 1;
		} else if (a == 0) {
			want = 0;
		} else {
			uint32_t m = a < 0 ? 0u - (uint32_t)a : (uint32_t)a, q = m >> sh;
			q += ((m & ((1u << sh) - 1)) + ((1u << (sh - 1)) - 1) + (q & 1)) >> sh;
			q = q < 1 ? 1 : q > (uint32_t)mx ? (uint32_t)mx : q;
			want = a < 0 ? -(int32_t)q : (int32_t)q;
		}
		if (out != want) {
			width_case(c, to, from, a);
		}
	}
	c.evals += (uint64_t)(hi - lo);
	c.checks += (uint64_t)(hi - lo);
	c.stat["swept_2^32"] += (uint64_t)(hi - lo);
	return 0;
}
PROPERTY(P04)
{
	for (int from = 0; from < NUM_TYPES; from++) {
		for (int to = 0; to < NUM_TYPES; to++) {
			if (from == to || TYPES[from].lin != TYPES[to].lin) {
				continue;
			}
			std::string b = std::string(TYPES[to].name) + "_from_" + TYPES[from].name;
			if (TYPES[from].n <= 16) {
				jobs.push_back({b + "/exhaustive", [=](Ctx &c) {
					for (int64_t a = TYPES[from].nar; a <= TYPES[from].maxv; a++) width_case(c, to, from, a);
				}});
				continue;
			}
			jobs.push_back({b + "/structured", [=](Ctx &c) {
				int nf = TYPES[from].n, nt = TYPES[to].n;
				for (auto a : corners(from)) width_case(c, to, from, a);
				for (auto a : dictionary(from)) width_case(c, to, from, a);
				if (nt < nf) {
					/* around every representable value and tie (16 bit:
					 * all; 32 bit: sampled) of the target */
					uint64_t N = nt <= 16 ? 1ULL << nt : 200000;
					for (uint64_t i = 0; i < N; i++) {
						int64_t k = nt <= 16 ? (int64_t)i : (int64_t)c.rng.next();
						uint64_t base = (uint64_t)k << (nf - nt), half = 1ULL << (nf - nt - 1);
						for (int d = -1; d <= 1; d++) {
							width_case(c, to, from, sx(nf, base + (uint64_t)(int64_t)d));
							width_case(c, to, from, sx(nf, base + half + (uint64_t)(int64_t)d));
						}
					}
				}
			}});
			for (int part = 0; part < 4; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(200000); i++) {
						width_case(c, to, from, i & 1 ? draw(c.rng, from) : sx(TYPES[from].n, c.rng.next()));
					}
				}});
			}
		}
	}
#define SWEEP(T, F, TO, FROM)                                                  \
	for (int part = 0; part < 32; part++)                                  \
		jobs.push_back({#T "_from_" #F "/all" + std::to_string(part), [=](Ctx &c) { \
			int64_t lo = (int64_t)INT32_MIN + ((int64_t)part << 27); \
			for (int64_t x = lo; x < lo + (1 << 27); x += 1 << 22) \
				sweep32<T, F, T##_from_##F>(c, TO, FROM, x, x + (1 << 22)); \
		}})
	SWEEP(takum8, takum32, T_takum8, T_takum32);
	SWEEP(takum16, takum32, T_takum16, T_takum32);
	SWEEP(takum_linear8, takum_linear32, T_takum_linear8, T_takum_linear32);
	SWEEP(takum_linear16, takum_linear32, T_takum_linear16, T_takum_linear32);
	std::vector<Callee> same, all = callees_of(K_CONV, {}, {});
	for (auto &ce : all) if (TYPES[ce.src].lin == TYPES[ce.type].lin) same.push_back(ce);
	guided_jobs(jobs, same, [](Ctx &c, const Case &k) { width_case(c, k.type, k.src, k.a); }, 20000);
}

/* ---- P05: between the logarithmic and the linear family ---------------- */
static void cross_case(Ctx &c, int to, int from, int64_t a)
{
	const Type &F = TYPES[from], &T = TYPES[to];
	int64_t out = c.conv(to, from, a);
	std::string key = std::string(T.name) + "_from_" + F.name;
	c.checks++;
	c.in_regime(from, a, false);
	c.in_regime(to, out, true);
	c.distinct(h64((uint64_t)(400 + to * 8 + from), (uint64_t)a));
	if (a == F.nar || a == 0) {
		if (out != (a == 0 ? 0 : T.nar)) {
			c.fail(key + "|special", key + "(" + lls(a) + ") = " + lls(out));
		}
		return;
	}
	Q x = or_value(F, a), ex = 0;
	Q err = F.lin ? q2(-62) : or_conv_err(F, a, F.n == 64 || T.n == 64 ? 2 : 1) * 1.5Q;
	bool ok = out != 0 && (out < 0) == (a < 0) && or_accept(T, x, x, err, or_errmodel(T, 0).pos, out, &ex);
	Q pos = or_spos(T, x);
	if (!ok) {
		c.fail(key + "|nearest", key + "(" + lls(a) + ") = " + lls(out) + ", exact position " + qstr(pos) + ", excess " + qstr(ex));
	} else if (c.rng.below(50000) == 0) {
		c.note(key + "(" + lls(a) + ") = " + lls(out) + ", exact position " + qstr(pos));
	}
}
PROPERTY(P05)
{
	for (int from = 0; from < NUM_TYPES; from++) {
		for (int to = 0; to < NUM_TYPES; to++) {
			if (TYPES[from].lin == TYPES[to].lin) {
				continue;
			}
			std::string b = std::string(TYPES[to].name) + "_from_" + TYPES[from].name;
			if (TYPES[from].n <= 16) {
				jobs.push_back({b + "/exhaustive", [=](Ctx &c) {
					for (int64_t a = TYPES[from].nar; a <= TYPES[from].maxv; a++) cross_case(c, to, from, a);
				}});
				continue;
			}
			jobs.push_back({b + "/structured", [=](Ctx &c) {
				for (auto a : corners(from)) cross_case(c, to, from, a);
				for (auto a : specials(from)) cross_case(c, to, from, a);
				for (auto a : dictionary(from)) cross_case(c, to, from, a);
				/* preimages of the target's values and midpoints */
				const Type &T = TYPES[to];
				for (uint64_t i = 0; i < scaled(20000); i++) {
					int64_t k = draw(c.rng, to);
					if (k == T.nar || k == 0) continue;
					Q x = value_at(T, k < 0 ? -k : k, c.rng.next() & 1 ? 0.5Q : 0);
					int64_t e = or_encode(TYPES[from], k < 0 ? -x : x);
					for (int d = -1; d <= 1; d++) cross_case(c, to, from, clampt(from, (__int128)e + d));
				}
			}});
			for (int part = 0; part < 4; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(50000); i++) cross_case(c, to, from, draw(c.rng, from));
				}});
			}
		}
	}
	for (int from : {2, 6}) {
		for (int to = 0; to < NUM_TYPES; to++) {
			for (int part = 0; part < 64 && TYPES[to].n <= 32 && TYPES[from].lin != TYPES[to].lin; part++) {
				jobs.push_back({std::string("scan/") + TYPES[to].name + "_from_" + TYPES[from].name + "_" + std::to_string(part), [=](Ctx &c) {
					const Type &F = TYPES[from];
					int64_t step = thorough() ? 1 : 509, a = F.nar + ((int64_t)part << 26), end = a + (1 << 26);
					uint64_t n = 0;
					for (a += (int64_t)(opt.seed % (uint64_t)step); a < end; a += step) {
						int64_t out = c.conv(to, from, a);
						if (!(++n & 4095)) c.tick();
						if (a == 0 || a == F.nar || out == 0 || !ld_accept(TYPES[to], ld_value(F, a), out)) cross_case(c, to, from, a);
					}
					c.checks += n;
					c.stat["scanned_arguments"] += n;
				}});
			}
		}
	}
	std::vector<Callee> cross, all = callees_of(K_CONV, {}, {});
	for (auto &ce : all) if (TYPES[ce.src].lin != TYPES[ce.type].lin) cross.push_back(ce);
	guided_jobs(jobs, cross, [](Ctx &c, const Case &k) { cross_case(c, k.type, k.src, k.a); }, 10000);
}

/* ---- P06: order and sign symmetry -------------------------------------- */
/* all ways to look at two neighbours a < b */
static void order_pair(Ctx &c, int t, int64_t a, int64_t b)
{
	const Type &T = TYPES[t];
	if (a > b) {
		int64_t x = a; a = b; b = x;
	}
	if (a == b || a == T.nar) {
		return;
	}
	c.checks++;
	c.distinct(h64(h64((uint64_t)(500 + t), (uint64_t)a), (uint64_t)b));
	for (int fmt = 0; fmt < 3; fmt++) {
		long double fa = to_any(c, t, fmt, a), fb = to_any(c, t, fmt, b);
		bool strict = rt_applies(T, fmt, a) && rt_applies(T, fmt, b);
		if (!(strict ? fa < fb : fa <= fb)) {
			c.fail(std::string(T.name) + "_to_" + FMT[fmt] + "|order",
			       std::string(T.name) + " " + lls(a) + " < " + lls(b) + " but " + FMT[fmt] + " " + hexl(fa) + (strict ? " >= " : " > ") + hexl(fb));
		}
	}
	if (c.rng.below(50000) == 0) {
		c.note(std::string(T.name) + ": " + lls(a) + " < " + lls(b) + " stay ordered in every format and type");
	}
	for (int s = 0; s < NUM_TYPES; s++) {
		if (s == t) continue;
		int64_t x = c.conv(s, t, a), y = c.conv(s, t, b);
		if (x > y || x == TYPES[s].nar) {
			c.fail(std::string(TYPES[s].name) + "_from_" + T.name + "|order",
			       std::string(T.name) + " " + lls(a) + " < " + lls(b) + " but converted " + lls(x) + " > " + lls(y));
		}
	}
}
/* so close to a midpoint that the last rounding may go either way */
static bool near_tie(const Type &T, Q x)
{
	Q p = qabs(or_spos(T, x));
	return qabs(p - floorq(p) - 0.5Q) <= 2 * or_errmodel(T, 0).pos;
}
static void order_floats(Ctx &c, int t, int fmt, long double f, long double g)
{
	const Type &T = TYPES[t];
	if (!(f == f) || !(g == g) || std::isinf(f) || std::isinf(g)) {
		return;
	}
	if (f > g) {
		long double x = f; f = g; g = x;
	}
	int64_t a = from_any(c, t, fmt, f), b = from_any(c, t, fmt, g);
	c.checks++;
	if (a > b || a == T.nar || b == T.nar) {
		c.fail(std::string(T.name) + "_from_" + FMT[fmt] + "|order",
		       std::string(FMT[fmt]) + " " + hexl(f) + " <= " + hexl(g) + " but encoded as " + lls(a) + " > " + lls(b));
	}
	int64_t an = from_any(c, t, fmt, -f);
	__int128 d = (__int128)an + a;
	if (d != 0 && !(d >= -1 && d <= 1 && near_tie(T, (Q)f))) {
		c.fail(std::string(T.name) + "_from_" + FMT[fmt] + "|negation",
		       std::string(FMT[fmt]) + " " + hexl(f) + " encodes as " + lls(a) + ", its negative as " + lls(an));
	}
	if (d != 0) c.stat["negation_off_by_one_ulp"]++;
}
static void negate_case(Ctx &c, int t, int64_t a)
{
	const Type &T = TYPES[t];
	if (a == T.nar) return;
	c.checks++;
	for (int fmt = 0; fmt < 3; fmt++) {
		long double x = to_any(c, t, fmt, a), y = to_any(c, t, fmt, -a);
		if (x != -y) {
			c.fail(std::string(T.name) + "_to_" + FMT[fmt] + "|negation",
			       std::string(T.name) + " " + lls(a) + " is " + hexl(x) + ", its negative is " + hexl(y));
		}
	}
	for (int s = 0; s < NUM_TYPES; s++) {
		if (s == t) continue;
		int64_t x = c.conv(s, t, a), y = c.conv(s, t, -a);
		__int128 d = (__int128)x + y;
		if (d != 0 && !(TYPES[s].lin != T.lin && d >= -1 && d <= 1 && near_tie(TYPES[s], or_value(T, a)))) {
			c.fail(std::string(TYPES[s].name) + "_from_" + T.name + "|negation",
			       std::string(T.name) + " +-" + lls(a) + " convert to " + lls(x) + " and " + lls(y));
		}
	}
}
PROPERTY(P06)
{
	for (int t = 0; t < NUM_TYPES; t++) {
		const Type &T = TYPES[t];
		std::string b = T.name;
		if (T.n <= 16) {
			jobs.push_back({b + "/neighbours", [=](Ctx &c) {
				for (int64_t a = -TYPES[t].maxv; a < TYPES[t].maxv; a++) order_pair(c, t, a, a + 1);
				for (int64_t a = 0; a <= TYPES[t].maxv; a++) negate_case(c, t, a);
			}});
		} else {
			jobs.push_back({b + "/structured", [=](Ctx &c) {
				const std::vector<int64_t> *v[3] = {&corners(t), &dictionary(t), &specials(t)};
				for (auto p : v) for (auto a : *p) {
					if (a == TYPES[t].nar) continue;
					order_pair(c, t, a, clampt(t, (__int128)a + 1));
					negate_case(c, t, a);
				}
			}});
		}
		for (int part = 0; part < 4; part++) {
			jobs.push_back({b + "/pairs" + std::to_string(part), [=](Ctx &c) {
				for (uint64_t i = 0; i < scaled(20000); i++) {
					int64_t a = draw(c.rng, t);
					if (a == TYPES[t].nar) continue;
					negate_case(c, t, a);
					order_pair(c, t, a, clampt(t, (__int128)a + 1));
					order_pair(c, t, a, draw_partner(c.rng, t, a));
				}
			}});
		}
		for (int fmt = 0; fmt < 3; fmt++) {
			for (int part = 0; part < 2; part++) {
				jobs.push_back({b + "_from_" + FMT[fmt] + "/pairs" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(60000); i++) {
						long double f = draw_any(c.rng, t, fmt), g;
						if (c.rng.next() & 1) {
							g = draw_any(c.rng, t, fmt);
						} else {
							g = fmt == 0 ? (long double)nextafterf((float)f, INFINITY) :
							    fmt == 1 ? (long double)nextafter((double)f, INFINITY) : nextafterl(f, INFINITY);
						}
						order_floats(c, t, fmt, f, g);
					}
				}});
			}
		}
	}
	/* a walk along the whole order: every output no less than the one before,
	 * and the mirror image at the negated argument */
	for (int t : {2, 6}) {
		for (int part = 0; part < 64; part++) {
			jobs.push_back({std::string("scan/") + TYPES[t].name + "_" + std::to_string(part), [=](Ctx &c) {
				int64_t len = ((int64_t)1 << 31) / 64, a = part * len, end = a + len, run = thorough() ? len : 2048;
				uint64_t n = 0;
				for (int64_t k = 0; k < (thorough() ? 1 : 40); k++) {
					int64_t lo = thorough() ? a : a + (int64_t)c.rng.below((uint64_t)(len - run)), hi = lo + run;
					long double pf[3] = {-INFINITY, -INFINITY, -INFINITY};
					int64_t pc[NUM_TYPES];
					for (auto &p : pc) p = INT64_MIN;
					for (int64_t x = lo; x < hi && x < end; x++) {
						bool bad = false;
						if (!(++n & 1023)) c.tick();
						for (int fmt = 0; fmt < 3; fmt++) {
							long double f = to_any(c, t, fmt, x);
							bad |= fmt ? !(f > pf[fmt]) : !(f >= pf[fmt]);
							bad |= to_any(c, t, fmt, -x) != -f;
							pf[fmt] = f;
						}
						for (int s = 0; s < NUM_TYPES; s++) {
							if (s == t) continue;
							int64_t y = c.conv(s, t, x);
							bad |= y < pc[s] || y == TYPES[s].nar || c.conv(s, t, -x) != -y;
							pc[s] = y;
						}
						if (bad) {
							negate_case(c, t, x);
							order_pair(c, t, x - 1, x);
						}
					}
				}
				c.checks += n;
				c.stat["scanned_neighbours"] += n;
			}});
		}
	}
	for (int t = 0; t < NUM_TYPES; t++) {
		for (int part = 0; part < 64; part++) {
			jobs.push_back({std::string("scan/") + TYPES[t].name + "_from_float32_" + std::to_string(part), [=](Ctx &c) {
				int64_t len = (int64_t)0x7f800000 / 64, a = part * len, run = thorough() ? len : 4096;
				uint64_t n = 0;
				for (int64_t k = 0; k < (thorough() ? 1 : 40); k++) {
					int64_t lo = thorough() ? a : a + (int64_t)c.rng.below((uint64_t)(len - run));
					int64_t prev = INT64_MIN;
					for (int64_t b = lo; b < lo + run; b++) {
						float f = f32_bits((uint32_t)b);
						int64_t x = c.from32(t, f), y = c.from32(t, -f);
						if (!(++n & 4095)) c.tick();
						if (x < prev || x == TYPES[t].nar || y != -x) order_floats(c, t, 0, b ? f32_bits((uint32_t)b - 1) : 0, f);
						prev = x;
					}
				}
				c.checks += n;
				c.stat["scanned_neighbours"] += n;
			}});
		}
	}
	auto ints = [](Ctx &c, const Case &k) {
		int t = k.kind == K_CONV ? k.src : k.type;
		if (k.a == TYPES[t].nar) return;
		order_pair(c, t, k.a, clampt(t, (__int128)k.a + 1));
		negate_case(c, t, k.a);
	};
	for (int kind : {K_TO32, K_TO64, K_TOEXT, K_CONV}) {
		guided_jobs(jobs, callees_of(kind, {}, {}), ints, 2000);
	}
	for (int fmt = 0; fmt < 3; fmt++) {
		guided_jobs(jobs, callees_of(K_FROM32 + fmt, {}, {}), [=](Ctx &c, const Case &k) {
			long double f = k.f, g = fmt == 0 ? (long double)nextafterf((float)f, INFINITY) :
					     fmt == 1 ? (long double)nextafter((double)f, INFINITY) : nextafterl(f, INFINITY);
			order_floats(c, k.type, fmt, f, g);
		}, 10000);
	}
}
