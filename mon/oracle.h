/*
 * Reference model, written from the takum format definition and the manual
 * pages and sharing no code with the library.  Everything is computed in
 * IEEE binary128 (113 bit), i.e. with about 49 bits to spare over the
 * 64-bit-significand arithmetic of the library's widest type.
 */
#ifndef MON_ORACLE_H
#define MON_ORACLE_H
#include <quadmath.h>
#include <stdint.h>
#include <string>
#include "types.h"

typedef __float128 Q;

#define Q_PI   3.14159265358979323846264338327950288419716939937510582097Q
#define Q_LN2  0.69314718055994530941723212145817656807550013436025525412Q
#define Q_LN10 2.30258509299404568401799145468436420760110148862877297603Q

static inline Q q2(int e) { return scalbnq(1.0Q, e); }
static inline Q qabs(Q x) { return x < 0 ? -x : x; }
static inline Q qmin(Q a, Q b) { return a < b ? a : b; }
static inline Q qmax(Q a, Q b) { return a > b ? a : b; }
static inline bool qnan(Q x) { return x != x; }

/* ---- format --------------------------------------------------------- */

/* characteristic/mantissa of a positive bit pattern v in 1..2^(n-1)-1 as
 * the exact real number c + m */
Q or_lambda(int n, uint64_t v);
/* position of c + m = lambda (a real) among the positive n-bit patterns:
 * the inverse of or_lambda, extended linearly between patterns */
Q or_pos(int n, Q lambda);
/* (pseudo-)logarithmic value of x > 0 */
Q or_lambda_of(bool lin, Q x);
/* value of a takum; NaR -> NaN */
Q or_value(const Type &T, int64_t t);
/* its (pseudo-)logarithmic magnitude, t not 0/NaR */
Q or_ell(const Type &T, int64_t t);
/* signed real position of x, saturated to [1, max]; 0 -> 0 */
Q or_spos(const Type &T, Q x);
/* nearest takum, ties to even, saturating; NaN/Inf -> NaR */
int64_t or_encode(const Type &T, Q x);
/* round a saturated signed position to nearest, ties to even */
int64_t or_round_pos(const Type &T, Q pos);

/* one unit of relative spacing at t: upper bound for |dx/x| of one step */
int or_p(const Type &T, int64_t t); /* mantissa bits, may be negative */

/* ---- functions ------------------------------------------------------ */

enum Domain {
	D_OK,  /* mathematically defined, finite */
	D_NAR, /* result must be NaR */
};

/* documented NaR condition of a unary function at the exact value x */
Domain or_unary_domain(int fn, Q x);
/* exact function value (x in the domain) */
Q or_unary(int fn, Q x);
Domain or_binary_domain(int fn, Q a, Q b);
Q or_binary(int fn, Q a, Q b);

/* sin(pi x), cos(pi x) with exact reduction */
Q or_sinpi(Q x);
Q or_cospi(Q x);
bool or_isint(Q x);
bool or_isodd(Q x); /* x integral */

/* precision(t) per the format */
int or_precision(const Type &T, int64_t t);

/* ---- error model ---------------------------------------------------- */
/*
 * The documented computation model: an argument is converted to the
 * floating type that the width promises (e_arg relative error), the function
 * is evaluated in that type (e_fun relative error) and the result is encoded
 * to nearest.  Both are upper bounds with a safety factor.
 */
struct ErrModel {
	Q arg; /* relative error of the argument before f */
	Q fun; /* relative error of f's result */
	Q pos; /* further slack in units of the last place */
};
ErrModel or_errmodel(const Type &T, int64_t t);
/* relative error of T's values as converted by to_float32/64/extended */
Q or_conv_err(const Type &T, int64_t t, int fmt /* 0:f32 1:f64 2:ext */);

/* is `out` an admissible encoding of some real in [lo,hi]? */
bool or_accept(const Type &T, Q lo, Q hi, Q fun, Q possl, int64_t out,
               Q *excess);

std::string qstr(Q x);

#endif
