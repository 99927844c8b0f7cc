#include "check.h"
#include <stdio.h>
#include <math.h>

std::string lls(int64_t v) { return std::to_string((long long)v); }

std::string describe(int t, const Verdict &v, int64_t out)
{
	const Type &T = TYPES[t];
	return "got " + lls(out) + (out == T.nar ? " (NaR)" : "") + ", exact result " +
	       qstr(v.want) + " sits at " + qstr(v.pos) + " (" + v.cls + ", excess " +
	       qstr(v.excess) + " ulp)";
}

static bool is_trig(int fn)
{
	switch (fn) {
	case U_sin: case U_cos: case U_tan: case U_cot: case U_sec: case U_csc:
	case U_sin_pi_times: case U_cos_pi_times: case U_tan_pi_times:
	case U_cot_pi_times: case U_sec_pi_times: case U_csc_pi_times:
		return true;
	}
	return false;
}
static bool is_pi(int fn)
{
	switch (fn) {
	case U_sin_pi_times: case U_cos_pi_times: case U_tan_pi_times:
	case U_cot_pi_times: case U_sec_pi_times: case U_csc_pi_times:
		return true;
	}
	return false;
}

static Verdict mk(bool ok, const char *cls, Q want, Q pos, Q ex)
{
	Verdict v;
	v.ok = ok;
	v.cls = cls;
	v.want = want;
	v.pos = pos;
	v.excess = ex;
	v.wide = v.ill = false;
	return v;
}

static int sgn(Q x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static int sgni(int64_t x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

static const char *classify(const Type &T, Q y, int64_t out)
{
	return out == T.nar ? "nar" : (out == 0) != (y == 0) ? "zero" :
	       sgni(out) != sgn(y) ? "sign" : "accuracy";
}

Verdict check_unary(int fn, int t, int64_t a, int64_t out)
{
	const Type &T = TYPES[t];
	Q x = or_value(T, a), y, lo, hi, ex = 0;

	/* a logarithmic takum other than 0 and +-1 is never rational, so its
	 * value is never exactly (half-)integral even where binary128 says so */
	bool irrational = !T.lin && a != T.nar && x != 0 && qabs(x) != 1;
	if (a == T.nar ||
	    (or_unary_domain(fn, x) == D_NAR && !(is_pi(fn) && irrational))) {
		return mk(out == T.nar, "nar", nanq(""), nanq(""), 0);
	}
	y = or_unary(fn, x);
	Q pos = or_spos(T, y);
	ErrModel e = or_errmodel(T, a);
	bool illc = is_trig(fn) && x != 0 &&
		    qabs(x) * e.arg * (is_pi(fn) ? Q_PI : 1) > 0.2Q;
	if (is_pi(fn) && illc && irrational) {
		y = or_unary(fn, 0.3Q); /* placeholder: any admissible value */
	}
	if (!irrational && (y == 0 || (is_pi(fn) && or_isint(2 * x) && qabs(y) == 1))) {
		/* exactly representable results at exactly representable points */
		int64_t one = (int64_t)1 << (T.n - 2);
		int64_t want = y == 0 ? 0 : y > 0 ? one : -one;
		return mk(out == want, classify(T, y, out), y, pos,
			  out == T.nar ? 0 : (Q)out - (Q)want);
	}
	if (out != 0 && !illc && or_accept(T, y, y, e.fun, e.pos, out, &ex)) {
		return mk(true, "", y, pos, 0);
	}
	Verdict v = mk(false, classify(T, y, out), y, pos, ex);
	v.wide = true;
	if (x == 0) {
		return v;
	}
	if (illc) {
		/* the argument's own uncertainty spans the period: only the
		 * range of the function can be decided */
		v.ill = true;
		int64_t one = (int64_t)1 << (T.n - 2);
		switch (fn) {
		case U_sin: case U_cos: case U_sin_pi_times: case U_cos_pi_times:
			v.ok = out != T.nar && out >= -one && out <= one;
			break;
		case U_sec: case U_csc:
			v.ok = out != T.nar && (out >= one || out <= -one);
			break;
		case U_sec_pi_times: case U_csc_pi_times:
			v.ok = out == T.nar || out >= one || out <= -one;
			break;
		case U_tan: case U_cot:
			v.ok = out != T.nar;
			break;
		default:
			v.ok = true;
		}
		if (!v.ok) {
			v.cls = out == T.nar ? "nar" : "range";
		}
		return v;
	}
	lo = hi = y;
	bool pole = false;
	for (int s = -1; s <= 1; s += 2) {
		for (int k = 1; k <= 2; k++) {
			Q xp = x * (1 + s * e.arg * k / 2);
			if (or_unary_domain(fn, xp) == D_NAR) {
				if (is_pi(fn)) {
					pole = true;
				}
				continue;
			}
			Q yp = or_unary(fn, xp);
			if (is_trig(fn) && yp * y < 0 && qabs(y) > 1) {
				pole = true;
			}
			lo = qmin(lo, yp);
			hi = qmax(hi, yp);
		}
	}
	if (is_trig(fn)) {
		/* an extremum inside the argument interval */
		Q h = is_pi(fn) ? 0.5Q : Q_PI / 2;
		if (floorq(x * (1 - e.arg) / h) != floorq(x * (1 + e.arg) / h)) {
			switch (fn) {
			case U_tan: case U_cot: case U_tan_pi_times: case U_cot_pi_times:
				break;
			case U_sin: case U_cos: case U_sin_pi_times: case U_cos_pi_times:
				if (qabs(y) > 0.5Q) {
					lo = qmin(lo, y > 0 ? 1 : -1);
					hi = qmax(hi, y > 0 ? 1 : -1);
				}
				break;
			default:
				if (qabs(y) < 2) {
					lo = qmin(lo, y > 0 ? 1 : -1);
					hi = qmax(hi, y > 0 ? 1 : -1);
				}
			}
		}
	}
	if (pole) {
		v.ill = true;
		v.ok = is_pi(fn) || out != T.nar;
		return v;
	}
	bool acc = or_accept(T, lo, hi, e.fun, e.pos, out, &ex);
	v.excess = ex;
	if (acc && out == 0 && !(is_pi(fn) && lo <= 0 && hi >= 0)) {
		/* a non-zero result never collapses to zero */
		v.cls = "zero";
		return v;
	}
	v.ok = acc;
	return v;
}

Verdict check_binary(int fn, int t, int64_t a, int64_t b, int64_t out)
{
	const Type &T = TYPES[t];
	Q x = or_value(T, a), w = or_value(T, b), y, lo, hi, ex = 0;

	if (a == T.nar || b == T.nar) {
		return mk(out == T.nar, "nar", nanq(""), nanq(""), 0);
	}
	ErrModel ea = or_errmodel(T, a), eb = or_errmodel(T, b);
	if (fn == B_power && x < 0 && !T.lin && w != 0 && qabs(w) != 1) {
		/* mathematically NaR (irrational exponent), but an exponent that
		 * the computation cannot tell from an integer may count as one */
		Verdict v = mk(out == T.nar, "nar", nanq(""), nanq(""), 0);
		Q near = roundq(w), l[5];
		bool coarse = qabs(w) * eb.arg > 0.4Q;
		if (v.ok || (!coarse && qabs(w - near) > qabs(w) * eb.arg)) {
			return v;
		}
		v.ill = true;
		v.cls = "accuracy";
		l[0] = or_binary(B_power, -x, w);
		l[1] = or_binary(B_power, -x * (1 - ea.arg), w * (1 - eb.arg));
		l[2] = or_binary(B_power, -x * (1 + ea.arg), w * (1 + eb.arg));
		l[3] = or_binary(B_power, -x * (1 - ea.arg), w * (1 + eb.arg));
		l[4] = or_binary(B_power, -x * (1 + ea.arg), w * (1 - eb.arg));
		lo = hi = l[0];
		for (Q z : l) {
			lo = qmin(lo, z);
			hi = qmax(hi, z);
		}
		v.want = or_isodd(near) ? -l[0] : l[0];
		v.pos = or_spos(T, v.want);
		v.ok = out != 0 && (coarse || (out < 0) == or_isodd(near)) &&
		       or_accept(T, lo, hi, ea.fun, ea.pos, out < 0 ? -out : out, &ex);
		v.excess = ex;
		return v;
	}
	if (or_binary_domain(fn, x, w) == D_NAR) {
		Verdict v = mk(out == T.nar, "nar", nanq(""), nanq(""), 0);
		return v;
	}
	y = or_binary(fn, x, w);
	Q pos = or_spos(T, y);
	if (y == 0) {
		return mk(out == 0, out == T.nar ? "nar" : "zero", y, pos, out == T.nar ? 0 : (Q)out);
	}
	if (out != 0 && or_accept(T, y, y, ea.fun, ea.pos, out, &ex)) {
		return mk(true, "", y, pos, 0);
	}
	Verdict v = mk(false, classify(T, y, out), y, pos, ex);
	v.wide = true;
	if (v.cls[0] == 'z' || v.cls[0] == 'n') {
		return v;
	}
	lo = hi = y;
	for (int s = -1; s <= 1; s++) {
		for (int r = -1; r <= 1; r++) {
			Q xp = x * (1 + s * ea.arg);
			/* keep an integral exponent of a negative base */
			Q wp = fn == B_power && x < 0 ? w : w * (1 + r * eb.arg);
			if (or_binary_domain(fn, xp, wp) == D_NAR) {
				continue;
			}
			Q yp = or_binary(fn, xp, wp);
			lo = qmin(lo, yp);
			hi = qmax(hi, yp);
		}
	}
	v.ok = or_accept(T, lo, hi, ea.fun, ea.pos, out, &ex);
	v.excess = ex;
	return v;
}

/* ---- fast acceptance ---------------------------------------------------
 * For at most 32 bits the exact position can be had from long double with
 * room to spare: an output within 0.499 of it is certainly admissible.  All
 * else (and a sample of everything) goes to the binary128 model.
 */
long double ld_value(const Type &T, int64_t a)
{
	uint64_t v = a < 0 ? (uint64_t)0 - (uint64_t)a : (uint64_t)a;
	int n = T.n;
	if (n < 12) {
		v <<= 12 - n;
		n = 12;
	}
	int DR = (int)(v >> (n - 5)) & 15, r = DR >= 8 ? DR - 8 : 15 - DR - 8;
	long double l = ldexpl((long double)(v & ((1ULL << (n - 5)) - 1)), -(n - 5 - r)) +
			(long double)(DR >= 8 ? (1 << r) - 1 : 1 - (1 << (r + 1)));
	long double x;
	if (T.lin) {
		long double h = floorl(l);
		x = ldexpl(1 + (l - h), (int)h);
	} else {
		x = expl(l / 2);
	}
	return a < 0 ? -x : x;
}
bool ld_accept(const Type &T, long double y, int64_t out)
{
	long double l, c, p;
	int r, n = T.n;
	if (!(y != 0) || !std::isfinite(y)) {
		return false;
	}
	if (fabsl(y) > 0x1p300L) { /* beyond either family's range */
		return out == (y < 0 ? -T.maxv : T.maxv);
	}
	if (fabsl(y) < 0x1p-300L) {
		return out == (y < 0 ? -1 : 1);
	}
	if (T.lin) {
		int e;
		long double f = frexpl(fabsl(y), &e);
		l = (e - 1) + (2 * f - 1);
	} else {
		l = 2 * logl(fabsl(y));
	}
	if (fabsl(l) >= 255) {
		p = l > 0 ? T.maxv : 1;
		return out == (int64_t)(y < 0 ? -p : p);
	}
	c = floorl(l);
	if (c >= 0) {
		r = 31 - __builtin_clz((unsigned)c + 1);
		p = ldexpl((long double)(8 + r), n - 5) + ldexpl(l - ((1 << r) - 1), n - 5 - r);
	} else {
		r = 31 - __builtin_clz((unsigned)-c);
		p = ldexpl((long double)(7 - r), n - 5) + ldexpl(l - (1 - (1 << (r + 1))), n - 5 - r);
	}
	p = p < 1 ? 1 : p > T.maxv ? T.maxv : p;
	return fabsl((y < 0 ? -p : p) - (long double)out) <= 0.499L;
}
static bool fast_unary(int fn, const Type &T, int64_t a, int64_t out)
{
	if (T.n > 32 || a == T.nar || a == 0 || out == T.nar || out == 0) {
		return false;
	}
	long double x = ld_value(T, a), y, pi = (long double)Q_PI;
	switch (fn) {
	case U_arccos: y = acosl(x); break;
	case U_arccos_over_pi: y = acosl(x) / pi; break;
	case U_arccsc: y = asinl(1 / x); break;
	case U_arccsc_over_pi: y = asinl(1 / x) / pi; break;
	case U_arcosh: y = acoshl(x); break;
	case U_arcsch: y = asinhl(1 / x); break;
	case U_arcsin: y = asinl(x); break;
	case U_arcsin_over_pi: y = asinl(x) / pi; break;
	case U_arctan: y = atanl(x); break;
	case U_arctan_over_pi: y = atanl(x) / pi; break;
	case U_arsinh: y = asinhl(x); break;
	case U_artanh: y = atanhl(x); break;
	case U_cosh: y = coshl(x); break;
	case U_coth: y = 1 / tanhl(x); break;
	case U_csch: y = 1 / sinhl(x); break;
	case U_exp: y = expl(x); break;
	case U_exp_minus_1: y = expm1l(x); break;
	case U_2_raised: y = exp2l(x); break;
	case U_inversion: y = 1 / x; break;
	case U_lb_1_plus: y = log1pl(x) / (long double)Q_LN2; break;
	case U_lg_1_plus: y = log1pl(x) / (long double)Q_LN10; break;
	case U_ln_1_plus: y = log1pl(x); break;
	case U_sech: y = 1 / coshl(x); break;
	case U_sinh: y = sinhl(x); break;
	case U_square_root: y = sqrtl(x); break;
	case U_tanh: y = tanhl(x); break;
	case U_ln: y = T.lin ? logl(x) : 0; break;
	case U_sin: case U_cos: case U_tan: case U_cot: case U_sec: case U_csc:
		if (fabsl(x) > 0x1p30L) {
			return false;
		}
		y = fn == U_sin || fn == U_csc ? sinl(x) : fn == U_cos || fn == U_sec ? cosl(x) : tanl(x);
		if (fabsl(y) < fabsl(x) * 0x1p-24L || (fabsl(y) < 0x1p-20L && fabsl(x) > 1) || fabsl(y) > 0x1p20L) {
			return false; /* too close to a zero or a pole */
		}
		y = fn == U_csc || fn == U_sec || fn == U_cot ? 1 / y : y;
		break;
	case U_sin_pi_times: case U_cos_pi_times: case U_tan_pi_times:
	case U_cot_pi_times: case U_sec_pi_times: case U_csc_pi_times: {
		if (fabsl(x) > 0x1p24L || fabsl(x) < 0x1p-20L) {
			return false;
		}
		long double k = rintl(2 * x), d = x - k / 2, s = sinl(pi * d), co = cosl(pi * d), t = s;
		if (fabsl(d) < 0x1p-16L) {
			return false;
		}
		switch (((int)k % 4 + 4) % 4) {
		case 1: s = co; co = -t; break;
		case 2: s = -s; co = -co; break;
		case 3: s = -co; co = t; break;
		}
		y = fn == U_sin_pi_times ? s : fn == U_cos_pi_times ? co : fn == U_tan_pi_times ? s / co :
		    fn == U_cot_pi_times ? co / s : fn == U_sec_pi_times ? 1 / co : 1 / s;
		break;
	}
	case U_10_raised: y = exp10l(x); break;
	case U_2_raised_minus_1: y = expm1l(x * (long double)Q_LN2); break;
	case U_10_raised_minus_1: y = expm1l(x * (long double)Q_LN10); break;
	case U_lb: y = log2l(x); break;
	case U_lg: y = log10l(x); break;
	case U_arccot: y = x > 0 ? atanl(1 / x) : atanl(1 / x) + pi; break;
	case U_arccot_over_pi: y = (x > 0 ? atanl(1 / x) : atanl(1 / x) + pi) / pi; break;
	case U_arcsec: y = acosl(1 / x); break;
	case U_arcsec_over_pi: y = acosl(1 / x) / pi; break;
	case U_arsech: y = acoshl(1 / x); break;
	case U_arcoth: y = 0.5L * log1pl(2 / (x - 1)); break;
	default: return false;
	}
	switch (fn) { /* over- and underflow of a finite non-zero result */
	case U_exp: case U_2_raised: case U_10_raised: case U_cosh: case U_sech: case U_sinh: case U_csch:
	case U_exp_minus_1: case U_2_raised_minus_1: case U_10_raised_minus_1:
		if (std::isinf(y)) {
			y = copysignl(0x1p5000L, y);
		} else if (y == 0 && fabsl(x) > 1) {
			y = copysignl(0x1p-5000L, y);
		}
	}
	return ld_accept(T, y, out);
}
static bool fast_binary(int fn, const Type &T, int64_t a, int64_t b, int64_t out)
{
	int64_t one = (int64_t)1 << (T.n - 2);
	if (T.n > 32 || a == T.nar || a == 0 || b == T.nar || b == 0 || out == 0) {
		return false;
	}
	if (fn == B_power && a < 0 && !T.lin && b != one && b != -one && out == T.nar) {
		return true; /* irrational exponent */
	}
	long double x = ld_value(T, a), w = ld_value(T, b), y;
	if (fn == B_power && a < 0 && out == T.nar && floorl(w) != w) {
		return true;
	}
	if (out == T.nar) {
		return false;
	}
	switch (fn) {
	case B_addition: case B_subtraction:
		y = fn == B_addition ? x + w : x - w;
		if (fabsl(y) < 0x1p-16L * fabsl(x)) {
			return false; /* cancellation */
		}
		break;
	case B_multiplication: y = x * w; break;
	case B_division: y = x / w; break;
	case B_hypotenuse: y = hypotl(x, w); break;
	case B_arctan2: y = atan2l(x, w); break;
	case B_arctan2_over_pi: y = atan2l(x, w) / (long double)Q_PI; break;
	case B_power:
		if (x < 0 && (!T.lin || floorl(w) != w)) {
			return false;
		}
		y = powl(x, w);
		if (y == 0 || std::isinf(y)) {
			y = copysignl(y == 0 ? 0x1p-5000L : 0x1p5000L, y);
		}
		break;
	default: return false;
	}
	return ld_accept(T, y, out);
}

static double ulperr(const Verdict &v, int64_t out)
{
	Q d = (Q)out - v.pos;
	return (double)qabs(d);
}

/* every step-th operand of a 16- or 32-bit type, the first one chosen by the seed */
void scan_unary(std::vector<Job> &jobs, const std::vector<int> &fns, const std::vector<int> &types, int64_t step)
{
	for (int t : types) {
		for (int fn : fns) {
			for (int part = 0; part < 64; part++) {
				jobs.push_back({std::string("scan/") + TYPES[t].name + "_" + UNARY_NAMES[fn] + std::to_string(part), [=](Ctx &c) {
					const Type &T = TYPES[t];
					int64_t len = (T.maxv - T.nar + 1) / 64, a = T.nar + part * len, end = a + len;
					uint64_t n = 0;
					for (a += (int64_t)(opt.seed % (uint64_t)step); a < end; a += step) {
						int64_t out = c.U(fn, t, a);
						if (!(c.evals & 4095)) {
							c.tick();
						}
						if (fast_unary(fn, T, a, out)) {
							n++;
						} else {
							run_unary_case(c, fn, t, a);
						}
					}
					c.checks += n;
					c.stat["scanned_arguments"] += n;
				}});
			}
		}
	}
}
/* all pairs of a 16-bit type, or every step-th */
void scan_binary(std::vector<Job> &jobs, const std::vector<int> &fns, const std::vector<int> &types, int64_t step)
{
	for (int t : types) {
		for (int fn : fns) {
			for (int part = 0; part < 64; part++) {
				jobs.push_back({std::string("scan/") + TYPES[t].name + "_" + BINARY_NAMES[fn] + std::to_string(part), [=](Ctx &c) {
					const Type &T = TYPES[t];
					int64_t len = (T.maxv - T.nar + 1) / 64, a0 = T.nar + part * len;
					uint64_t n = 0;
					for (int64_t a = a0; a < a0 + len; a++) {
						for (int64_t b = T.nar + (int64_t)((opt.seed + (uint64_t)(a - T.nar)) % (uint64_t)step); b <= T.maxv; b += step) {
							int64_t out = c.B(fn, t, a, b);
							if (!(c.evals & 4095)) {
								c.tick();
							}
							if (fast_binary(fn, T, a, b, out)) {
								n++;
							} else {
								run_binary_case(c, fn, t, a, b);
							}
						}
					}
					c.checks += n;
					c.stat["scanned_pairs"] += n;
				}});
			}
		}
	}
}

void run_unary_case(Ctx &c, int fn, int t, int64_t a)
{
	const Type &T = TYPES[t];
	int64_t out = c.U(fn, t, a);
	c.checks++;
	c.in_regime(t, a, false);
	c.in_regime(t, out, true);
	if ((c.checks & 7) && fast_unary(fn, T, a, out)) {
		c.distinct(h64(h64((uint64_t)fn, (uint64_t)t), (uint64_t)a));
		return;
	}
	Verdict v = check_unary(fn, t, a, out);
	if (a != T.nar && a != 0) {
		c.distinct(h64(h64((uint64_t)fn, (uint64_t)t), (uint64_t)a));
	}
	if (!v.ok) {
		c.stat["rejected"]++;
	} else if (v.ill) {
		c.stat["undecidable_accuracy"]++;
	} else if (v.wide) {
		c.stat["decided_by_argument_error"]++;
	} else if (!qnan(v.pos)) {
		c.max_of(std::string("ulp.") + T.name + "." + UNARY_NAMES[fn], ulperr(v, out), lls(a));
	}
	if (!v.ok) {
		c.fail(std::string(T.name) + "_" + UNARY_NAMES[fn] + "|" + v.cls,
		       tcase(UNARY_NAMES[fn], t, a) + ": " + describe(t, v, out),
		       kf_unary(fn, t, a, out, v));
	} else if (c.rng.below(20000) == 0) {
		c.note(tcase(UNARY_NAMES[fn], t, a) + " = " + lls(out) + ", exact position " + qstr(v.pos));
	}
}

void run_binary_case(Ctx &c, int fn, int t, int64_t a, int64_t b)
{
	const Type &T = TYPES[t];
	int64_t out = c.B(fn, t, a, b);
	c.checks++;
	c.in_regime(t, a, false);
	c.in_regime(t, out, true);
	if ((c.checks & 7) && fast_binary(fn, T, a, b, out)) {
		c.distinct(h64(h64(h64((uint64_t)fn + 1000, (uint64_t)t), (uint64_t)a), (uint64_t)b));
		return;
	}
	Verdict v = check_binary(fn, t, a, b, out);
	if (a != T.nar && a != 0 && b != 0 && b != T.nar) {
		c.distinct(h64(h64(h64((uint64_t)fn + 1000, (uint64_t)t), (uint64_t)a), (uint64_t)b));
	}
	if (!v.ok) {
		c.stat["rejected"]++;
	} else if (v.ill) {
		c.stat["undecidable_accuracy"]++;
	} else if (v.wide) {
		c.stat["decided_by_argument_error"]++;
	} else if (!qnan(v.pos)) {
		c.max_of(std::string("ulp.") + T.name + "." + BINARY_NAMES[fn], ulperr(v, out),
			 lls(a) + "," + lls(b));
	}
	if (!v.ok) {
		c.fail(std::string(T.name) + "_" + BINARY_NAMES[fn] + "|" + v.cls,
		       tcase2(BINARY_NAMES[fn], t, a, b) + ": " + describe(t, v, out),
		       kf_binary(fn, t, a, b, out, v));
	} else if (c.rng.below(20000) == 0) {
		c.note(tcase2(BINARY_NAMES[fn], t, a, b) + " = " + lls(out) + ", exact position " + qstr(v.pos));
	}
}

void unary_jobs(std::vector<Job> &jobs, const std::vector<int> &fns, uint64_t random)
{
	for (int t = 0; t < NUM_TYPES; t++) {
		for (int fn : fns) {
			std::string base = std::string(TYPES[t].name) + "_" + UNARY_NAMES[fn];
			if (TYPES[t].n <= 16) {
				jobs.push_back({base + "/exhaustive", [=](Ctx &c) {
					const Type &T = TYPES[t];
					for (int64_t a = T.nar; a <= T.maxv; a++) {
						run_unary_case(c, fn, t, a);
					}
				}});
				continue;
			}
			jobs.push_back({base + "/structured", [=](Ctx &c) {
				for (auto a : corners(t)) {
					run_unary_case(c, fn, t, a);
				}
				for (auto a : specials(t)) {
					run_unary_case(c, fn, t, a);
				}
				for (auto a : dictionary(t)) {
					run_unary_case(c, fn, t, a);
				}
			}});
			jobs.push_back({base + "/random", [=](Ctx &c) {
				for (uint64_t i = 0; i < scaled(random); i++) {
					run_unary_case(c, fn, t, draw(c.rng, t));
				}
			}});
		}
	}
}

void binary_jobs(std::vector<Job> &jobs, const std::vector<int> &fns,
		 const std::vector<int> &types, uint64_t random)
{
	for (int t : types) {
		for (int fn : fns) {
			std::string base = std::string(TYPES[t].name) + "_" + BINARY_NAMES[fn];
			if (TYPES[t].n == 8) {
				jobs.push_back({base + "/exhaustive", [=](Ctx &c) {
					for (int a = -128; a < 128; a++) {
						for (int b = -128; b < 128; b++) {
							run_binary_case(c, fn, t, a, b);
						}
					}
				}});
				continue;
			}
			for (int part = 0; part < 4; part++) {
				jobs.push_back({base + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(random) / 4; i++) {
						int64_t a = draw(c.rng, t);
						int64_t b = draw_partner(c.rng, t, a);
						if (c.rng.next() & 1) {
							int64_t x = a;
							a = b;
							b = x;
						}
						run_binary_case(c, fn, t, a, b);
					}
				}});
			}
		}
	}
}

/* ---- known findings --------------------------------------------------
 * Each region is a specific set of inputs together with a model of the wrong
 * answer given there; anything outside that model is still a violation.
 */
static bool kf_hull(int fn, const Type &T, Q x, Q arg, Q fun, Q abs, Q possl,
		    int64_t out, Q *plo, Q *phi)
{
	Q lo = 0, hi = 0;
	bool first = true;
	for (int s = -2; s <= 2; s++) {
		Q xp = x * (1 + s * arg / 2);
		if (or_unary_domain(fn, xp) == D_NAR) {
			continue;
		}
		Q y = or_unary(fn, xp);
		lo = first ? y : qmin(lo, y);
		hi = first ? y : qmax(hi, y);
		first = false;
	}
	lo -= abs;
	hi += abs;
	if (plo) {
		*plo = lo;
		*phi = hi;
	}
	return !first && or_accept(T, lo, hi, fun, possl, out, nullptr);
}

const char *kf_unary(int fn, int t, int64_t a, int64_t out, const Verdict &v)
{
	const Type &T = TYPES[t];
	if (a == T.nar || a == 0) {
		return nullptr;
	}
	Q x = or_value(T, a);
	ErrModel e = or_errmodel(T, a);
	switch (fn) {
	case U_2_raised_minus_1: case U_10_raised_minus_1: {
		/* b^x is rounded to 64 bits before 1 is subtracted: an absolute
		 * error of up to 2^-63 for x near zero, all of it for |y|
		 * below that */
		if (qabs(x) < 1 &&
		    kf_hull(fn, T, x, e.arg, e.fun, q2(-62), e.pos, out, nullptr, nullptr)) {
			return "raised_minus_1_cancellation";
		}
		return nullptr;
	}
	case U_arcoth: case U_arcsch: {
		/* 1/x and the function value pass through binary64 */
		const char *id = fn == U_arcoth ? "arcoth64_double" : "arcsch64_double";
		if (T.n != 64) {
			return nullptr;
		}
		if (fn == U_arcoth && qabs(x) > 1 && qabs(x) < 1 + q2(-52) && out == T.nar) {
			return id;
		}
		if (out != T.nar && out != 0 && (out < 0) == (a < 0) &&
		    kf_hull(fn, T, x, e.arg + q2(-52), q2(-51), 0, e.pos, out, nullptr, nullptr)) {
			return id;
		}
		return nullptr;
	}
	case U_sin_pi_times: case U_cos_pi_times: case U_tan_pi_times:
	case U_cot_pi_times: case U_sec_pi_times: case U_csc_pi_times: {
		/* the exact points are recognised for positive arguments only:
		 * at a negative (half-)integer that is not an even integer (an
		 * integer for tan, cot) the function is evaluated at pi*x
		 * rounded to 64 bits instead */
		if (!(x < 0) || !or_isint(2 * x) || (!T.lin && x != -1)) {
			return nullptr;
		}
		Q d = Q_PI * qabs(x) * q2(-62);
		if (d > 0.2Q) {
			return out != T.nar ? "pi_times_negative" : nullptr;
		}
		bool half = !or_isint(x), ok = false;
		Q mag = qabs(or_value(T, out)), step = 1 + q2(-3);
		if (out == T.nar) {
			return nullptr;
		}
		if (T.n == 8) {
			step = 1e6Q; /* an 8-bit step is large out here */
		}
		/* exact result 0, pole, or +-1 */
		int kind = 0;
		switch (fn) {
		case U_sin_pi_times: kind = half ? 2 : 0; break;
		case U_cos_pi_times: kind = half ? 0 : 2; break;
		case U_tan_pi_times: kind = half ? 1 : 0; break;
		case U_cot_pi_times: kind = half ? 0 : 1; break;
		case U_sec_pi_times: kind = half ? 1 : 2; break;
		case U_csc_pi_times: kind = half ? 2 : 1; break;
		}
		if (kind == 0) {
			ok = mag <= d * step;
		} else if (kind == 1) {
			ok = mag * step >= 1 / d;
		} else {
			/* second order in the argument error */
			ok = or_accept(T, v.want * (1 - d * d), v.want * (1 + d * d),
				       e.fun, e.pos, out, nullptr);
		}
		return ok ? "pi_times_negative" : nullptr;
	}
	}
	return nullptr;
}

const char *kf_binary(int fn, int t, int64_t a, int64_t b, int64_t out, const Verdict &)
{
	const Type &T = TYPES[t];
	int64_t one = (int64_t)1 << (T.n - 2);
	if (fn == B_power && out == one &&
	    ((b == 0 && (a == 0 || a == T.nar)) || (a == one && b == T.nar))) {
		return "power_nar_zero";
	}
	return nullptr;
}
