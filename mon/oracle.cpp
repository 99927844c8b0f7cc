#include "oracle.h"
#include <stdio.h>
#include <stdlib.h>

Q or_lambda(int n, uint64_t v)
{
	/* v has n-1 bits: D R2 R1 R0 | C (r) | M.  Missing bits are zero. */
	int D, R, r;
	Q body, x;

	if (n < 12) { /* left-align so that D, R and C are complete */
		v <<= (12 - n);
		n = 12;
	}
	D = (int)((v >> (n - 2)) & 1);
	R = (int)((v >> (n - 5)) & 7);
	r = D ? R : 7 - R;
	/* C.M as a fixed point number with n-5-r fraction bits */
	body = (Q)(v & ((((uint64_t)1) << (n - 5)) - 1));
	x = scalbnq(body, -(n - 5 - r));
	return x + (D ? (Q)((1 << r) - 1) : (Q)(1 - (1 << (r + 1))));
}

Q or_pos(int n, Q lambda)
{
	Q c = floorq(lambda);
	int D, r;

	if (lambda >= 255) {
		return scalbnq(1.0Q, n - 1);
	}
	if (lambda <= -255) {
		return 0;
	}
	if (c >= 0) {
		D = 1;
		for (r = 0; r < 7 && (1 << (r + 1)) - 1 <= (int)c; r++)
			;
		return scalbnq((Q)(8 + r), n - 5) +
		       scalbnq(lambda - (Q)((1 << r) - 1), n - 5 - r);
	} else {
		D = 0;
		(void)D;
		for (r = 0; r < 7 && (int)c < 1 - (1 << (r + 1)); r++)
			;
		return scalbnq((Q)(7 - r), n - 5) +
		       scalbnq(lambda - (Q)(1 - (1 << (r + 1))), n - 5 - r);
	}
}

Q or_lambda_of(bool lin, Q x)
{
	if (lin) {
		int e;
		Q f = frexpq(x, &e); /* [0.5,1) */
		return (Q)(e - 1) + (2 * f - 1);
	} else {
		return 2 * logq(x);
	}
}

Q or_ell(const Type &T, int64_t t)
{
	uint64_t v = t < 0 ? (uint64_t)0 - (uint64_t)t : (uint64_t)t;
	return or_lambda(T.n, v);
}

Q or_value(const Type &T, int64_t t)
{
	Q l, x;
	if (t == T.nar) {
		return nanq("");
	}
	if (t == 0) {
		return 0;
	}
	l = or_ell(T, t);
	if (T.lin) {
		Q h = floorq(l);
		x = scalbnq(1 + (l - h), (int)h);
	} else {
		x = expq(l / 2);
	}
	return t < 0 ? -x : x;
}

Q or_spos(const Type &T, Q x)
{
	Q p;
	if (x == 0) {
		return 0;
	}
	if (isinfq(x)) {
		p = (Q)T.maxv;
	} else {
		p = or_pos(T.n, or_lambda_of(T.lin, qabs(x)));
	}
	p = qmin(qmax(p, 1), (Q)T.maxv);
	return x < 0 ? -p : p;
}

int64_t or_round_pos(const Type &T, Q p)
{
	Q a = qabs(p), f = floorq(a), d = a - f;
	if (d > 0.5Q || (d == 0.5Q && fmodq(f, 2) != 0)) {
		f += 1;
	}
	(void)T;
	return p < 0 ? -(int64_t)f : (int64_t)f;
}

int64_t or_encode(const Type &T, Q x)
{
	if (qnan(x) || isinfq(x)) {
		return T.nar;
	}
	return or_round_pos(T, or_spos(T, x));
}

int or_p(const Type &T, int64_t t)
{
	Q l = or_ell(T, t);
	int c = (int)floorq(l), r;
	if (c >= 0) {
		for (r = 0; r < 7 && (1 << (r + 1)) - 1 <= c; r++)
			;
	} else {
		for (r = 0; r < 7 && c < 1 - (1 << (r + 1)); r++)
			;
	}
	return T.n - 5 - r;
}

int or_precision(const Type &T, int64_t t)
{
	int p;
	/* negative patterns carry the complemented D/R/C bits unless the
	 * magnitude sits on a regime boundary, so look at the bits proper */
	if (t == 0 || t == T.nar) {
		p = T.n - 12;
	} else {
		uint64_t b = (uint64_t)t;
		int D = (int)((b >> (T.n - 2)) & 1);
		int R = (int)((b >> (T.n - 5)) & 7);
		int r = D ? R : 7 - R;
		p = T.n - 5 - r;
	}
	return p < 0 ? 0 : p;
}

bool or_isint(Q x) { return x == truncq(x); }
bool or_isodd(Q x) { return fmodq(qabs(x), 2) == 1; }

Q or_sinpi(Q x)
{
	Q k = roundq(2 * x), d = x - k / 2;
	int q = (int)fmodq(k, 4);
	if (q < 0) {
		q += 4;
	}
	switch (q) {
	case 0: return d == 0 ? 0 : sinq(Q_PI * d);
	case 1: return cosq(Q_PI * d);
	case 2: return d == 0 ? 0 : -sinq(Q_PI * d);
	default: return -cosq(Q_PI * d);
	}
}

Q or_cospi(Q x)
{
	Q k = roundq(2 * x), d = x - k / 2;
	int q = (int)fmodq(k, 4);
	if (q < 0) {
		q += 4;
	}
	switch (q) {
	case 0: return cosq(Q_PI * d);
	case 1: return d == 0 ? 0 : -sinq(Q_PI * d);
	case 2: return -cosq(Q_PI * d);
	default: return d == 0 ? 0 : sinq(Q_PI * d);
	}
}

Domain or_unary_domain(int fn, Q x)
{
	bool bad = false;
	Q a = qabs(x);

	if (qnan(x)) {
		return D_NAR;
	}
	switch (fn) {
	case U_arccos: case U_arccos_over_pi:
	case U_arcsin: case U_arcsin_over_pi:
		bad = a > 1;
		break;
	case U_arccsc: case U_arccsc_over_pi:
	case U_arcsec: case U_arcsec_over_pi:
		bad = a < 1;
		break;
	case U_arcosh: bad = x < 1; break;
	case U_arcoth: bad = a <= 1; break;
	case U_arsech: bad = x <= 0 || x > 1; break;
	case U_artanh: bad = a >= 1; break;
	case U_arcsch: case U_cot: case U_coth: case U_csch: case U_csc:
	case U_inversion:
		bad = x == 0;
		break;
	case U_cot_pi_times: case U_csc_pi_times: bad = or_isint(x); break;
	case U_tan_pi_times: case U_sec_pi_times:
		bad = !or_isint(x) && or_isint(2 * x);
		break;
	case U_lb: case U_lg: case U_ln: bad = x <= 0; break;
	case U_lb_1_plus: case U_lg_1_plus: case U_ln_1_plus:
		bad = x <= -1;
		break;
	case U_square_root: bad = x < 0; break;
	default: break;
	}
	return bad ? D_NAR : D_OK;
}

/* a positive result that is too small for binary128 is still not zero */
static Q nz(Q y) { return y == 0 ? 1e-4900Q : y; }
static Q snz(Q y, Q sgn) { return y == 0 ? (sgn < 0 ? -1e-4900Q : 1e-4900Q) : y; }

Q or_unary(int fn, Q x)
{
	switch (fn) {
	case U_10_raised: return x > 5000 ? (Q)HUGE_VALQ : x < -5000 ? 1e-4900Q : nz(powq(10, x));
	case U_10_raised_minus_1: return x > 5000 ? (Q)HUGE_VALQ : x < -5000 ? -1 : expm1q(x * Q_LN10);
	case U_2_raised: return x > 16300 ? (Q)HUGE_VALQ : x < -16300 ? 1e-4900Q : nz(exp2q(x));
	case U_2_raised_minus_1: return x > 16300 ? (Q)HUGE_VALQ : x < -16300 ? -1 : expm1q(x * Q_LN2);
	case U_absolute: return qabs(x);
	case U_arccos: return acosq(x);
	case U_arccos_over_pi: return acosq(x) / Q_PI;
	case U_arccot: return x == 0 ? Q_PI / 2 : x > 0 ? atanq(1 / x) : atanq(1 / x) + Q_PI;
	case U_arccot_over_pi: return or_unary(U_arccot, x) / Q_PI;
	case U_arccsc: return asinq(1 / x);
	case U_arccsc_over_pi: return asinq(1 / x) / Q_PI;
	case U_arcosh: return acoshq(x);
	case U_arcoth: return 0.5Q * log1pq(2 / (x - 1)) ;
	case U_arcsch: return asinhq(1 / x);
	case U_arcsec: return acosq(1 / x);
	case U_arcsec_over_pi: return acosq(1 / x) / Q_PI;
	case U_arcsin: return asinq(x);
	case U_arcsin_over_pi: return asinq(x) / Q_PI;
	case U_arctan: return atanq(x);
	case U_arctan_over_pi: return atanq(x) / Q_PI;
	case U_arsech: return acoshq(1 / x);
	case U_arsinh: return asinhq(x);
	case U_artanh: return atanhq(x);
	case U_cos: return cosq(x);
	case U_cos_pi_times: return or_cospi(x);
	case U_cosh: return coshq(x);
	case U_cot: return 1 / tanq(x);
	case U_cot_pi_times: return or_cospi(x) / or_sinpi(x);
	case U_coth: return 1 / tanhq(x);
	case U_csc: return 1 / sinq(x);
	case U_csc_pi_times: return 1 / or_sinpi(x);
	case U_csch: return snz(1 / sinhq(x), x);
	case U_exp: return nz(expq(x));
	case U_exp_minus_1: return expm1q(x);
	case U_inversion: return 1 / x;
	case U_lb: return log2q(x);
	case U_lb_1_plus: return log1pq(x) / Q_LN2;
	case U_lg: return log10q(x);
	case U_lg_1_plus: return log1pq(x) / Q_LN10;
	case U_ln: return logq(x);
	case U_ln_1_plus: return log1pq(x);
	case U_sec: return 1 / cosq(x);
	case U_sec_pi_times: return 1 / or_cospi(x);
	case U_sech: return nz(1 / coshq(x));
	case U_sign: return x > 0 ? 1 : x < 0 ? -1 : 0;
	case U_sin: return sinq(x);
	case U_sin_pi_times: return or_sinpi(x);
	case U_sinh: return sinhq(x);
	case U_square_root: return sqrtq(x);
	case U_tan: return tanq(x);
	case U_tan_pi_times: return or_sinpi(x) / or_cospi(x);
	case U_tanh: return tanhq(x);
	}
	abort();
}

Domain or_binary_domain(int fn, Q a, Q b)
{
	if (qnan(a) || qnan(b)) {
		return D_NAR;
	}
	switch (fn) {
	case B_division: return b == 0 ? D_NAR : D_OK;
	case B_power:
		if (a == 0) {
			return b <= 0 ? D_NAR : D_OK;
		}
		return a < 0 && !or_isint(b) ? D_NAR : D_OK;
	default: return D_OK;
	}
}

Q or_binary(int fn, Q a, Q b)
{
	switch (fn) {
	case B_addition: return a + b;
	case B_subtraction: return a - b;
	case B_multiplication: return a * b;
	case B_division: return a / b;
	case B_hypotenuse: return hypotq(a, b);
	case B_arctan2: return atan2q(a, b);
	case B_arctan2_over_pi: return atan2q(a, b) / Q_PI;
	case B_power: {
		Q m, l;
		if (a == 0) {
			return 0;
		}
		/* magnitude through the exponent so that neither overflow
		 * nor underflow loses the sign or the non-zeroness */
		l = b * logq(qabs(a));
		if (l > 11000) {
			m = HUGE_VALQ;
		} else if (l < -11000) {
			m = 1e-4900Q;
		} else {
			m = powq(qabs(a), b);
		}
		return a < 0 && or_isodd(b) ? -m : m;
	}
	}
	abort();
}

/*
 * log types: x = sqrt(e)^ell through a 64-bit-significand power function:
 * the rounded base contributes |ell| * 2^-65, the function about one ulp.
 */
ErrModel or_errmodel(const Type &T, int64_t t)
{
	ErrModel e;
	Q l = (t == 0 || t == T.nar) ? 0 : qabs(or_ell(T, t));
	if (!T.lin) {
		e.arg = l * q2(-64) + q2(-62);
		e.fun = q2(-61);
	} else if (T.n < 64) {
		e.arg = q2(-52);
		e.fun = q2(-50);
	} else {
		e.arg = q2(-62);
		e.fun = q2(-61);
	}
	e.pos = T.n == 64 ? 0.125Q : T.n == 16 ? q2(-11) : q2(-17);
	return e;
}

Q or_conv_err(const Type &T, int64_t t, int fmt)
{
	Q l = (t == 0 || t == T.nar) ? 0 : qabs(or_ell(T, t));
	int ulp = fmt == 0 ? -24 : fmt == 1 ? -53 : -64;
	if (T.lin) {
		/* one rounding of an exact value */
		return q2(ulp);
	}
	/* base rounding, exponent rounding, final rounding */
	return l * q2(ulp) + 2 * q2(ulp);
}

bool or_accept(const Type &T, Q lo, Q hi, Q fun, Q possl, int64_t out, Q *excess)
{
	Q a, b, t, enc;
	if (lo > hi) {
		t = lo; lo = hi; hi = t;
	}
	/* relative evaluation and encoding errors */
	enc = q2(-63) * 260; /* |lambda| <= 255: (|c|+1) * 2^-63 */
	(void)enc;
	lo = lo < 0 ? lo * (1 + fun) : lo * (1 - fun);
	hi = hi < 0 ? hi * (1 - fun) : hi * (1 + fun);
	a = or_spos(T, lo) - 0.5Q - possl;
	b = or_spos(T, hi) + 0.5Q + possl;
	if (excess) {
		*excess = out < a ? (Q)out - a : out > b ? (Q)out - b : 0;
	}
	return out != T.nar && (Q)out >= a && (Q)out <= b;
}

std::string qstr(Q x)
{
	char b[64];
	quadmath_snprintf(b, sizeof b, "%.25Qg", x);
	return b;
}
