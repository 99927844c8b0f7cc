/*
 * Black-box view of libtakum: every public function, reached only through
 * takum.h, behind one uniform int64-based signature per shape.
 */
#ifndef MON_TYPES_H
#define MON_TYPES_H
#include <stdint.h>
#include <stddef.h>

extern "C" {
#include "takum.h"
}

#define UNARY_LIST(X)                                                          \
	X(10_raised) X(10_raised_minus_1) X(2_raised) X(2_raised_minus_1)      \
	X(absolute) X(arccos) X(arccos_over_pi) X(arccot) X(arccot_over_pi)    \
	X(arccsc) X(arccsc_over_pi) X(arcosh) X(arcoth) X(arcsch) X(arcsec)    \
	X(arcsec_over_pi) X(arcsin) X(arcsin_over_pi) X(arctan)                \
	X(arctan_over_pi) X(arsech) X(arsinh) X(artanh) X(cos)                 \
	X(cos_pi_times) X(cosh) X(cot) X(cot_pi_times) X(coth) X(csc)          \
	X(csc_pi_times) X(csch) X(exp) X(exp_minus_1) X(inversion) X(lb)       \
	X(lb_1_plus) X(lg) X(lg_1_plus) X(ln) X(ln_1_plus) X(sec)              \
	X(sec_pi_times) X(sech) X(sign) X(sin) X(sin_pi_times) X(sinh)         \
	X(square_root) X(tan) X(tan_pi_times) X(tanh)

#define BINARY_LIST(X)                                                         \
	X(addition) X(subtraction) X(multiplication) X(division)               \
	X(hypotenuse) X(arctan2) X(arctan2_over_pi) X(power)

#define INT_LIST(X) X(integer_power) X(root)

#define TYPE_LIST(X)                                                           \
	X(takum8, 8, 0) X(takum16, 16, 0) X(takum32, 32, 0) X(takum64, 64, 0)  \
	X(takum_linear8, 8, 1) X(takum_linear16, 16, 1)                        \
	X(takum_linear32, 32, 1) X(takum_linear64, 64, 1)

enum UnaryFn {
#define X(N) U_##N,
	UNARY_LIST(X)
#undef X
	NUM_UNARY
};
enum BinaryFn {
#define X(N) B_##N,
	BINARY_LIST(X)
#undef X
	NUM_BINARY
};
enum IntFn {
#define X(N) I_##N,
	INT_LIST(X)
#undef X
	NUM_INT
};
enum TypeId {
#define X(T, N, L) T_##T,
	TYPE_LIST(X)
#undef X
	NUM_TYPES
};

typedef int64_t (*unary_t)(int64_t);
typedef int64_t (*binary_t)(int64_t, int64_t);

struct Type {
	const char *name;
	int n;    /* bits */
	bool lin; /* linear takum? */
	int64_t nar, maxv;
	unary_t un[NUM_UNARY];
	binary_t bin[NUM_BINARY];
	binary_t ipow[NUM_INT];
	int (*precision)(int64_t);
	float (*to_f32)(int64_t);
	double (*to_f64)(int64_t);
	long double (*to_ext)(int64_t);
	int64_t (*from_f32)(float);
	int64_t (*from_f64)(double);
	int64_t (*from_ext)(long double);
	/* from_type[S]: this type from type S (identity entries are null) */
	unary_t from_type[NUM_TYPES];
};

extern const Type TYPES[NUM_TYPES];
extern const char *const UNARY_NAMES[NUM_UNARY];
extern const char *const BINARY_NAMES[NUM_BINARY];
extern const char *const INT_NAMES[NUM_INT];

/* the published constants of takum.h */
struct Constant {
	const char *name; /* suffix, e.g. 2_PI_OVER_3 */
	int type;
	int64_t value;
};
extern const Constant CONSTANTS[];
extern const size_t NUM_CONSTANTS;

#endif
