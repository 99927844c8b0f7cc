/* generated once from the type list; see types.h */
#include "types.h"

template <class T, T (*F)(T)> static int64_t u1(int64_t a) { return (int64_t)F((T)a); }
template <class T, T (*F)(T, T)> static int64_t b2(int64_t a, int64_t b) { return (int64_t)F((T)a, (T)b); }
template <class T, T (*F)(T, int64_t)> static int64_t i2(int64_t a, int64_t b) { return (int64_t)F((T)a, b); }
template <class T, uint8_t (*F)(T)> static int p1(int64_t a) { return F((T)a); }
template <class R, class T, R (*F)(T)> static R to1(int64_t a) { return F((T)a); }
template <class R, class T, T (*F)(R)> static int64_t fr1(R a) { return (int64_t)F(a); }
template <class D, class S, D (*F)(S)> static int64_t cv(int64_t a) { return (int64_t)F((S)a); }

#define STR_(x) #x
const char *const UNARY_NAMES[NUM_UNARY] = {
#define X(N) #N,
	UNARY_LIST(X)
#undef X
};
const char *const BINARY_NAMES[NUM_BINARY] = {
#define X(N) #N,
	BINARY_LIST(X)
#undef X
};
const char *const INT_NAMES[NUM_INT] = {
#define X(N) #N,
	INT_LIST(X)
#undef X
};
#define UE_takum8(N) u1<takum8, takum8_##N>,
#define BE_takum8(N) b2<takum8, takum8_##N>,
#define IE_takum8(N) i2<takum8, takum8_##N>,
#define UE_takum16(N) u1<takum16, takum16_##N>,
#define BE_takum16(N) b2<takum16, takum16_##N>,
#define IE_takum16(N) i2<takum16, takum16_##N>,
#define UE_takum32(N) u1<takum32, takum32_##N>,
#define BE_takum32(N) b2<takum32, takum32_##N>,
#define IE_takum32(N) i2<takum32, takum32_##N>,
#define UE_takum64(N) u1<takum64, takum64_##N>,
#define BE_takum64(N) b2<takum64, takum64_##N>,
#define IE_takum64(N) i2<takum64, takum64_##N>,
#define UE_takum_linear8(N) u1<takum_linear8, takum_linear8_##N>,
#define BE_takum_linear8(N) b2<takum_linear8, takum_linear8_##N>,
#define IE_takum_linear8(N) i2<takum_linear8, takum_linear8_##N>,
#define UE_takum_linear16(N) u1<takum_linear16, takum_linear16_##N>,
#define BE_takum_linear16(N) b2<takum_linear16, takum_linear16_##N>,
#define IE_takum_linear16(N) i2<takum_linear16, takum_linear16_##N>,
#define UE_takum_linear32(N) u1<takum_linear32, takum_linear32_##N>,
#define BE_takum_linear32(N) b2<takum_linear32, takum_linear32_##N>,
#define IE_takum_linear32(N) i2<takum_linear32, takum_linear32_##N>,
#define UE_takum_linear64(N) u1<takum_linear64, takum_linear64_##N>,
#define BE_takum_linear64(N) b2<takum_linear64, takum_linear64_##N>,
#define IE_takum_linear64(N) i2<takum_linear64, takum_linear64_##N>,
const Type TYPES[NUM_TYPES] = {
	{ "takum8", 8, false, INT8_MIN, INT8_MAX,
	  { UNARY_LIST(UE_takum8) }, { BINARY_LIST(BE_takum8) }, { INT_LIST(IE_takum8) },
	  p1<takum8, takum8_precision>, to1<float, takum8, takum8_to_float32>,
	  to1<double, takum8, takum8_to_float64>, to1<long double, takum8, takum8_to_extended_float>,
	  fr1<float, takum8, takum8_from_float32>, fr1<double, takum8, takum8_from_float64>,
	  fr1<long double, takum8, takum8_from_extended_float>,
	  { nullptr, cv<takum8, takum16, takum8_from_takum16>, cv<takum8, takum32, takum8_from_takum32>, cv<takum8, takum64, takum8_from_takum64>, cv<takum8, takum_linear8, takum8_from_takum_linear8>, cv<takum8, takum_linear16, takum8_from_takum_linear16>, cv<takum8, takum_linear32, takum8_from_takum_linear32>, cv<takum8, takum_linear64, takum8_from_takum_linear64> } },
	{ "takum16", 16, false, INT16_MIN, INT16_MAX,
	  { UNARY_LIST(UE_takum16) }, { BINARY_LIST(BE_takum16) }, { INT_LIST(IE_takum16) },
	  p1<takum16, takum16_precision>, to1<float, takum16, takum16_to_float32>,
	  to1<double, takum16, takum16_to_float64>, to1<long double, takum16, takum16_to_extended_float>,
	  fr1<float, takum16, takum16_from_float32>, fr1<double, takum16, takum16_from_float64>,
	  fr1<long double, takum16, takum16_from_extended_float>,
	  { cv<takum16, takum8, takum16_from_takum8>, nullptr, cv<takum16, takum32, takum16_from_takum32>, cv<takum16, takum64, takum16_from_takum64>, cv<takum16, takum_linear8, takum16_from_takum_linear8>, cv<takum16, takum_linear16, takum16_from_takum_linear16>, cv<takum16, takum_linear32, takum16_from_takum_linear32>, cv<takum16, takum_linear64, takum16_from_takum_linear64> } },
	{ "takum32", 32, false, INT32_MIN, INT32_MAX,
	  { UNARY_LIST(UE_takum32) }, { BINARY_LIST(BE_takum32) }, { INT_LIST(IE_takum32) },
	  p1<takum32, takum32_precision>, to1<float, takum32, takum32_to_float32>,
	  to1<double, takum32, takum32_to_float64>, to1<long double, takum32, takum32_to_extended_float>,
	  fr1<float, takum32, takum32_from_float32>, fr1<double, takum32, takum32_from_float64>,
	  fr1<long double, takum32, takum32_from_extended_float>,
	  { cv<takum32, takum8, takum32_from_takum8>, cv<takum32, takum16, takum32_from_takum16>, nullptr, cv<takum32, takum64, takum32_from_takum64>, cv<takum32, takum_linear8, takum32_from_takum_linear8>, cv<takum32, takum_linear16, takum32_from_takum_linear16>, cv<takum32, takum_linear32, takum32_from_takum_linear32>, cv<takum32, takum_linear64, takum32_from_takum_linear64> } },
	{ "takum64", 64, false, INT64_MIN, INT64_MAX,
	  { UNARY_LIST(UE_takum64) }, { BINARY_LIST(BE_takum64) }, { INT_LIST(IE_takum64) },
	  p1<takum64, takum64_precision>, to1<float, takum64, takum64_to_float32>,
	  to1<double, takum64, takum64_to_float64>, to1<long double, takum64, takum64_to_extended_float>,
	  fr1<float, takum64, takum64_from_float32>, fr1<double, takum64, takum64_from_float64>,
	  fr1<long double, takum64, takum64_from_extended_float>,
	  { cv<takum64, takum8, takum64_from_takum8>, cv<takum64, takum16, takum64_from_takum16>, cv<takum64, takum32, takum64_from_takum32>, nullptr, cv<takum64, takum_linear8, takum64_from_takum_linear8>, cv<takum64, takum_linear16, takum64_from_takum_linear16>, cv<takum64, takum_linear32, takum64_from_takum_linear32>, cv<takum64, takum_linear64, takum64_from_takum_linear64> } },
	{ "takum_linear8", 8, true, INT8_MIN, INT8_MAX,
	  { UNARY_LIST(UE_takum_linear8) }, { BINARY_LIST(BE_takum_linear8) }, { INT_LIST(IE_takum_linear8) },
	  p1<takum_linear8, takum_linear8_precision>, to1<float, takum_linear8, takum_linear8_to_float32>,
	  to1<double, takum_linear8, takum_linear8_to_float64>, to1<long double, takum_linear8, takum_linear8_to_extended_float>,
	  fr1<float, takum_linear8, takum_linear8_from_float32>, fr1<double, takum_linear8, takum_linear8_from_float64>,
	  fr1<long double, takum_linear8, takum_linear8_from_extended_float>,
	  { cv<takum_linear8, takum8, takum_linear8_from_takum8>, cv<takum_linear8, takum16, takum_linear8_from_takum16>, cv<takum_linear8, takum32, takum_linear8_from_takum32>, cv<takum_linear8, takum64, takum_linear8_from_takum64>, nullptr, cv<takum_linear8, takum_linear16, takum_linear8_from_takum_linear16>, cv<takum_linear8, takum_linear32, takum_linear8_from_takum_linear32>, cv<takum_linear8, takum_linear64, takum_linear8_from_takum_linear64> } },
	{ "takum_linear16", 16, true, INT16_MIN, INT16_MAX,
	  { UNARY_LIST(UE_takum_linear16) }, { BINARY_LIST(BE_takum_linear16) }, { INT_LIST(IE_takum_linear16) },
	  p1<takum_linear16, takum_linear16_precision>, to1<float, takum_linear16, takum_linear16_to_float32>,
	  to1<double, takum_linear16, takum_linear16_to_float64>, to1<long double, takum_linear16, takum_linear16_to_extended_float>,
	  fr1<float, takum_linear16, takum_linear16_from_float32>, fr1<double, takum_linear16, takum_linear16_from_float64>,
	  fr1<long double, takum_linear16, takum_linear16_from_extended_float>,
	  { cv<takum_linear16, takum8, takum_linear16_from_takum8>, cv<takum_linear16, takum16, takum_linear16_from_takum16>, cv<takum_linear16, takum32, takum_linear16_from_takum32>, cv<takum_linear16, takum64, takum_linear16_from_takum64>, cv<takum_linear16, takum_linear8, takum_linear16_from_takum_linear8>, nullptr, cv<takum_linear16, takum_linear32, takum_linear16_from_takum_linear32>, cv<takum_linear16, takum_linear64, takum_linear16_from_takum_linear64> } },
	{ "takum_linear32", 32, true, INT32_MIN, INT32_MAX,
	  { UNARY_LIST(UE_takum_linear32) }, { BINARY_LIST(BE_takum_linear32) }, { INT_LIST(IE_takum_linear32) },
	  p1<takum_linear32, takum_linear32_precision>, to1<float, takum_linear32, takum_linear32_to_float32>,
	  to1<double, takum_linear32, takum_linear32_to_float64>, to1<long double, takum_linear32, takum_linear32_to_extended_float>,
	  fr1<float, takum_linear32, takum_linear32_from_float32>, fr1<double, takum_linear32, takum_linear32_from_float64>,
	  fr1<long double, takum_linear32, takum_linear32_from_extended_float>,
	  { cv<takum_linear32, takum8, takum_linear32_from_takum8>, cv<takum_linear32, takum16, takum_linear32_from_takum16>, cv<takum_linear32, takum32, takum_linear32_from_takum32>, cv<takum_linear32, takum64, takum_linear32_from_takum64>, cv<takum_linear32, takum_linear8, takum_linear32_from_takum_linear8>, cv<takum_linear32, takum_linear16, takum_linear32_from_takum_linear16>, nullptr, cv<takum_linear32, takum_linear64, takum_linear32_from_takum_linear64> } },
	{ "takum_linear64", 64, true, INT64_MIN, INT64_MAX,
	  { UNARY_LIST(UE_takum_linear64) }, { BINARY_LIST(BE_takum_linear64) }, { INT_LIST(IE_takum_linear64) },
	  p1<takum_linear64, takum_linear64_precision>, to1<float, takum_linear64, takum_linear64_to_float32>,
	  to1<double, takum_linear64, takum_linear64_to_float64>, to1<long double, takum_linear64, takum_linear64_to_extended_float>,
	  fr1<float, takum_linear64, takum_linear64_from_float32>, fr1<double, takum_linear64, takum_linear64_from_float64>,
	  fr1<long double, takum_linear64, takum_linear64_from_extended_float>,
	  { cv<takum_linear64, takum8, takum_linear64_from_takum8>, cv<takum_linear64, takum16, takum_linear64_from_takum16>, cv<takum_linear64, takum32, takum_linear64_from_takum32>, cv<takum_linear64, takum64, takum_linear64_from_takum64>, cv<takum_linear64, takum_linear8, takum_linear64_from_takum_linear8>, cv<takum_linear64, takum_linear16, takum_linear64_from_takum_linear16>, cv<takum_linear64, takum_linear32, takum_linear64_from_takum_linear32>, nullptr } },
};

const Constant CONSTANTS[] = {
	{ "2_PI", T_takum8, (int64_t)(TAKUM8_2_PI) },
	{ "2_PI_OVER_3", T_takum8, (int64_t)(TAKUM8_2_PI_OVER_3) },
	{ "2_PI_OVER_5", T_takum8, (int64_t)(TAKUM8_2_PI_OVER_5) },
	{ "3_PI", T_takum8, (int64_t)(TAKUM8_3_PI) },
	{ "3_PI_OVER_2", T_takum8, (int64_t)(TAKUM8_3_PI_OVER_2) },
	{ "3_PI_OVER_4", T_takum8, (int64_t)(TAKUM8_3_PI_OVER_4) },
	{ "3_PI_OVER_5", T_takum8, (int64_t)(TAKUM8_3_PI_OVER_5) },
	{ "4_PI", T_takum8, (int64_t)(TAKUM8_4_PI) },
	{ "4_PI_OVER_3", T_takum8, (int64_t)(TAKUM8_4_PI_OVER_3) },
	{ "4_PI_OVER_5", T_takum8, (int64_t)(TAKUM8_4_PI_OVER_5) },
	{ "5_PI", T_takum8, (int64_t)(TAKUM8_5_PI) },
	{ "5_PI_OVER_2", T_takum8, (int64_t)(TAKUM8_5_PI_OVER_2) },
	{ "5_PI_OVER_3", T_takum8, (int64_t)(TAKUM8_5_PI_OVER_3) },
	{ "5_PI_OVER_4", T_takum8, (int64_t)(TAKUM8_5_PI_OVER_4) },
	{ "5_PI_OVER_6", T_takum8, (int64_t)(TAKUM8_5_PI_OVER_6) },
	{ "6_PI", T_takum8, (int64_t)(TAKUM8_6_PI) },
	{ "6_PI_OVER_5", T_takum8, (int64_t)(TAKUM8_6_PI_OVER_5) },
	{ "GAMMA", T_takum8, (int64_t)(TAKUM8_GAMMA) },
	{ "LB_10", T_takum8, (int64_t)(TAKUM8_LB_10) },
	{ "LB_E", T_takum8, (int64_t)(TAKUM8_LB_E) },
	{ "LG_2", T_takum8, (int64_t)(TAKUM8_LG_2) },
	{ "LG_E", T_takum8, (int64_t)(TAKUM8_LG_E) },
	{ "LN_10", T_takum8, (int64_t)(TAKUM8_LN_10) },
	{ "LN_2", T_takum8, (int64_t)(TAKUM8_LN_2) },
	{ "ONE", T_takum8, (int64_t)(TAKUM8_ONE) },
	{ "PHI", T_takum8, (int64_t)(TAKUM8_PHI) },
	{ "PI", T_takum8, (int64_t)(TAKUM8_PI) },
	{ "PI_OVER_2", T_takum8, (int64_t)(TAKUM8_PI_OVER_2) },
	{ "PI_OVER_3", T_takum8, (int64_t)(TAKUM8_PI_OVER_3) },
	{ "PI_OVER_4", T_takum8, (int64_t)(TAKUM8_PI_OVER_4) },
	{ "PI_OVER_5", T_takum8, (int64_t)(TAKUM8_PI_OVER_5) },
	{ "PI_OVER_6", T_takum8, (int64_t)(TAKUM8_PI_OVER_6) },
	{ "SQUARE_ROOT_2", T_takum8, (int64_t)(TAKUM8_SQUARE_ROOT_2) },
	{ "SQUARE_ROOT_3", T_takum8, (int64_t)(TAKUM8_SQUARE_ROOT_3) },
	{ "SQUARE_ROOT_5", T_takum8, (int64_t)(TAKUM8_SQUARE_ROOT_5) },
	{ "SQUARE_ROOT_6", T_takum8, (int64_t)(TAKUM8_SQUARE_ROOT_6) },
	{ "POSITIVE_MINIMUM", T_takum8, (int64_t)(TAKUM8_POSITIVE_MINIMUM) },
	{ "POSITIVE_MAXIMUM", T_takum8, (int64_t)(TAKUM8_POSITIVE_MAXIMUM) },
	{ "NAR", T_takum8, (int64_t)(TAKUM8_NAR) },
	{ "2_PI", T_takum16, (int64_t)(TAKUM16_2_PI) },
	{ "2_PI_OVER_3", T_takum16, (int64_t)(TAKUM16_2_PI_OVER_3) },
	{ "2_PI_OVER_5", T_takum16, (int64_t)(TAKUM16_2_PI_OVER_5) },
	{ "3_PI", T_takum16, (int64_t)(TAKUM16_3_PI) },
	{ "3_PI_OVER_2", T_takum16, (int64_t)(TAKUM16_3_PI_OVER_2) },
	{ "3_PI_OVER_4", T_takum16, (int64_t)(TAKUM16_3_PI_OVER_4) },
	{ "3_PI_OVER_5", T_takum16, (int64_t)(TAKUM16_3_PI_OVER_5) },
	{ "4_PI", T_takum16, (int64_t)(TAKUM16_4_PI) },
	{ "4_PI_OVER_3", T_takum16, (int64_t)(TAKUM16_4_PI_OVER_3) },
	{ "4_PI_OVER_5", T_takum16, (int64_t)(TAKUM16_4_PI_OVER_5) },
	{ "5_PI", T_takum16, (int64_t)(TAKUM16_5_PI) },
	{ "5_PI_OVER_2", T_takum16, (int64_t)(TAKUM16_5_PI_OVER_2) },
	{ "5_PI_OVER_3", T_takum16, (int64_t)(TAKUM16_5_PI_OVER_3) },
	{ "5_PI_OVER_4", T_takum16, (int64_t)(TAKUM16_5_PI_OVER_4) },
	{ "5_PI_OVER_6", T_takum16, (int64_t)(TAKUM16_5_PI_OVER_6) },
	{ "6_PI", T_takum16, (int64_t)(TAKUM16_6_PI) },
	{ "6_PI_OVER_5", T_takum16, (int64_t)(TAKUM16_6_PI_OVER_5) },
	{ "GAMMA", T_takum16, (int64_t)(TAKUM16_GAMMA) },
	{ "LB_10", T_takum16, (int64_t)(TAKUM16_LB_10) },
	{ "LB_E", T_takum16, (int64_t)(TAKUM16_LB_E) },
	{ "LG_2", T_takum16, (int64_t)(TAKUM16_LG_2) },
	{ "LG_E", T_takum16, (int64_t)(TAKUM16_LG_E) },
	{ "LN_10", T_takum16, (int64_t)(TAKUM16_LN_10) },
	{ "LN_2", T_takum16, (int64_t)(TAKUM16_LN_2) },
	{ "ONE", T_takum16, (int64_t)(TAKUM16_ONE) },
	{ "PHI", T_takum16, (int64_t)(TAKUM16_PHI) },
	{ "PI", T_takum16, (int64_t)(TAKUM16_PI) },
	{ "PI_OVER_2", T_takum16, (int64_t)(TAKUM16_PI_OVER_2) },
	{ "PI_OVER_3", T_takum16, (int64_t)(TAKUM16_PI_OVER_3) },
	{ "PI_OVER_4", T_takum16, (int64_t)(TAKUM16_PI_OVER_4) },
	{ "PI_OVER_5", T_takum16, (int64_t)(TAKUM16_PI_OVER_5) },
	{ "PI_OVER_6", T_takum16, (int64_t)(TAKUM16_PI_OVER_6) },
	{ "SQUARE_ROOT_2", T_takum16, (int64_t)(TAKUM16_SQUARE_ROOT_2) },
	{ "SQUARE_ROOT_3", T_takum16, (int64_t)(TAKUM16_SQUARE_ROOT_3) },
	{ "SQUARE_ROOT_5", T_takum16, (int64_t)(TAKUM16_SQUARE_ROOT_5) },
	{ "SQUARE_ROOT_6", T_takum16, (int64_t)(TAKUM16_SQUARE_ROOT_6) },
	{ "POSITIVE_MINIMUM", T_takum16, (int64_t)(TAKUM16_POSITIVE_MINIMUM) },
	{ "POSITIVE_MAXIMUM", T_takum16, (int64_t)(TAKUM16_POSITIVE_MAXIMUM) },
	{ "NAR", T_takum16, (int64_t)(TAKUM16_NAR) },
	{ "2_PI", T_takum32, (int64_t)(TAKUM32_2_PI) },
	{ "2_PI_OVER_3", T_takum32, (int64_t)(TAKUM32_2_PI_OVER_3) },
	{ "2_PI_OVER_5", T_takum32, (int64_t)(TAKUM32_2_PI_OVER_5) },
	{ "3_PI", T_takum32, (int64_t)(TAKUM32_3_PI) },
	{ "3_PI_OVER_2", T_takum32, (int64_t)(TAKUM32_3_PI_OVER_2) },
	{ "3_PI_OVER_4", T_takum32, (int64_t)(TAKUM32_3_PI_OVER_4) },
	{ "3_PI_OVER_5", T_takum32, (int64_t)(TAKUM32_3_PI_OVER_5) },
	{ "4_PI", T_takum32, (int64_t)(TAKUM32_4_PI) },
	{ "4_PI_OVER_3", T_takum32, (int64_t)(TAKUM32_4_PI_OVER_3) },
	{ "4_PI_OVER_5", T_takum32, (int64_t)(TAKUM32_4_PI_OVER_5) },
	{ "5_PI", T_takum32, (int64_t)(TAKUM32_5_PI) },
	{ "5_PI_OVER_2", T_takum32, (int64_t)(TAKUM32_5_PI_OVER_2) },
	{ "5_PI_OVER_3", T_takum32, (int64_t)(TAKUM32_5_PI_OVER_3) },
	{ "5_PI_OVER_4", T_takum32, (int64_t)(TAKUM32_5_PI_OVER_4) },
	{ "5_PI_OVER_6", T_takum32, (int64_t)(TAKUM32_5_PI_OVER_6) },
	{ "6_PI", T_takum32, (int64_t)(TAKUM32_6_PI) },
	{ "6_PI_OVER_5", T_takum32, (int64_t)(TAKUM32_6_PI_OVER_5) },
	{ "GAMMA", T_takum32, (int64_t)(TAKUM32_GAMMA) },
	{ "LB_10", T_takum32, (int64_t)(TAKUM32_LB_10) },
	{ "LB_E", T_takum32, (int64_t)(TAKUM32_LB_E) },
	{ "LG_2", T_takum32, (int64_t)(TAKUM32_LG_2) },
	{ "LG_E", T_takum32, (int64_t)(TAKUM32_LG_E) },
	{ "LN_10", T_takum32, (int64_t)(TAKUM32_LN_10) },
	{ "LN_2", T_takum32, (int64_t)(TAKUM32_LN_2) },
	{ "ONE", T_takum32, (int64_t)(TAKUM32_ONE) },
	{ "PHI", T_takum32, (int64_t)(TAKUM32_PHI) },
	{ "PI", T_takum32, (int64_t)(TAKUM32_PI) },
	{ "PI_OVER_2", T_takum32, (int64_t)(TAKUM32_PI_OVER_2) },
	{ "PI_OVER_3", T_takum32, (int64_t)(TAKUM32_PI_OVER_3) },
	{ "PI_OVER_4", T_takum32, (int64_t)(TAKUM32_PI_OVER_4) },
	{ "PI_OVER_5", T_takum32, (int64_t)(TAKUM32_PI_OVER_5) },
	{ "PI_OVER_6", T_takum32, (int64_t)(TAKUM32_PI_OVER_6) },
	{ "SQUARE_ROOT_2", T_takum32, (int64_t)(TAKUM32_SQUARE_ROOT_2) },
	{ "SQUARE_ROOT_3", T_takum32, (int64_t)(TAKUM32_SQUARE_ROOT_3) },
	{ "SQUARE_ROOT_5", T_takum32, (int64_t)(TAKUM32_SQUARE_ROOT_5) },
	{ "SQUARE_ROOT_6", T_takum32, (int64_t)(TAKUM32_SQUARE_ROOT_6) },
	{ "POSITIVE_MINIMUM", T_takum32, (int64_t)(TAKUM32_POSITIVE_MINIMUM) },
	{ "POSITIVE_MAXIMUM", T_takum32, (int64_t)(TAKUM32_POSITIVE_MAXIMUM) },
	{ "NAR", T_takum32, (int64_t)(TAKUM32_NAR) },
	{ "2_PI", T_takum64, (int64_t)(TAKUM64_2_PI) },
	{ "2_PI_OVER_3", T_takum64, (int64_t)(TAKUM64_2_PI_OVER_3) },
	{ "2_PI_OVER_5", T_takum64, (int64_t)(TAKUM64_2_PI_OVER_5) },
	{ "3_PI", T_takum64, (int64_t)(TAKUM64_3_PI) },
	{ "3_PI_OVER_2", T_takum64, (int64_t)(TAKUM64_3_PI_OVER_2) },
	{ "3_PI_OVER_4", T_takum64, (int64_t)(TAKUM64_3_PI_OVER_4) },
	{ "3_PI_OVER_5", T_takum64, (int64_t)(TAKUM64_3_PI_OVER_5) },
	{ "4_PI", T_takum64, (int64_t)(TAKUM64_4_PI) },
	{ "4_PI_OVER_3", T_takum64, (int64_t)(TAKUM64_4_PI_OVER_3) },
	{ "4_PI_OVER_5", T_takum64, (int64_t)(TAKUM64_4_PI_OVER_5) },
	{ "5_PI", T_takum64, (int64_t)(TAKUM64_5_PI) },
	{ "5_PI_OVER_2", T_takum64, (int64_t)(TAKUM64_5_PI_OVER_2) },
	{ "5_PI_OVER_3", T_takum64, (int64_t)(TAKUM64_5_PI_OVER_3) },
	{ "5_PI_OVER_4", T_takum64, (int64_t)(TAKUM64_5_PI_OVER_4) },
	{ "5_PI_OVER_6", T_takum64, (int64_t)(TAKUM64_5_PI_OVER_6) },
	{ "6_PI", T_takum64, (int64_t)(TAKUM64_6_PI) },
	{ "6_PI_OVER_5", T_takum64, (int64_t)(TAKUM64_6_PI_OVER_5) },
	{ "GAMMA", T_takum64, (int64_t)(TAKUM64_GAMMA) },
	{ "LB_10", T_takum64, (int64_t)(TAKUM64_LB_10) },
	{ "LB_E", T_takum64, (int64_t)(TAKUM64_LB_E) },
	{ "LG_2", T_takum64, (int64_t)(TAKUM64_LG_2) },
	{ "LG_E", T_takum64, (int64_t)(TAKUM64_LG_E) },
	{ "LN_10", T_takum64, (int64_t)(TAKUM64_LN_10) },
	{ "LN_2", T_takum64, (int64_t)(TAKUM64_LN_2) },
	{ "ONE", T_takum64, (int64_t)(TAKUM64_ONE) },
	{ "PHI", T_takum64, (int64_t)(TAKUM64_PHI) },
	{ "PI", T_takum64, (int64_t)(TAKUM64_PI) },
	{ "PI_OVER_2", T_takum64, (int64_t)(TAKUM64_PI_OVER_2) },
	{ "PI_OVER_3", T_takum64, (int64_t)(TAKUM64_PI_OVER_3) },
	{ "PI_OVER_4", T_takum64, (int64_t)(TAKUM64_PI_OVER_4) },
	{ "PI_OVER_5", T_takum64, (int64_t)(TAKUM64_PI_OVER_5) },
	{ "PI_OVER_6", T_takum64, (int64_t)(TAKUM64_PI_OVER_6) },
	{ "SQUARE_ROOT_2", T_takum64, (int64_t)(TAKUM64_SQUARE_ROOT_2) },
	{ "SQUARE_ROOT_3", T_takum64, (int64_t)(TAKUM64_SQUARE_ROOT_3) },
	{ "SQUARE_ROOT_5", T_takum64, (int64_t)(TAKUM64_SQUARE_ROOT_5) },
	{ "SQUARE_ROOT_6", T_takum64, (int64_t)(TAKUM64_SQUARE_ROOT_6) },
	{ "POSITIVE_MINIMUM", T_takum64, (int64_t)(TAKUM64_POSITIVE_MINIMUM) },
	{ "POSITIVE_MAXIMUM", T_takum64, (int64_t)(TAKUM64_POSITIVE_MAXIMUM) },
	{ "NAR", T_takum64, (int64_t)(TAKUM64_NAR) },
	{ "2_PI", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_2_PI) },
	{ "2_PI_OVER_3", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_2_PI_OVER_3) },
	{ "2_PI_OVER_5", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_2_PI_OVER_5) },
	{ "3_PI", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_3_PI) },
	{ "3_PI_OVER_2", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_3_PI_OVER_2) },
	{ "3_PI_OVER_4", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_3_PI_OVER_4) },
	{ "3_PI_OVER_5", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_3_PI_OVER_5) },
	{ "4_PI", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_4_PI) },
	{ "4_PI_OVER_3", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_4_PI_OVER_3) },
	{ "4_PI_OVER_5", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_4_PI_OVER_5) },
	{ "5_PI", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_5_PI) },
	{ "5_PI_OVER_2", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_5_PI_OVER_2) },
	{ "5_PI_OVER_3", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_5_PI_OVER_3) },
	{ "5_PI_OVER_4", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_5_PI_OVER_4) },
	{ "5_PI_OVER_6", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_5_PI_OVER_6) },
	{ "6_PI", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_6_PI) },
	{ "6_PI_OVER_5", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_6_PI_OVER_5) },
	{ "GAMMA", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_GAMMA) },
	{ "LB_10", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_LB_10) },
	{ "LB_E", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_LB_E) },
	{ "LG_2", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_LG_2) },
	{ "LG_E", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_LG_E) },
	{ "LN_10", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_LN_10) },
	{ "LN_2", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_LN_2) },
	{ "ONE", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_ONE) },
	{ "PHI", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_PHI) },
	{ "PI", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_PI) },
	{ "PI_OVER_2", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_PI_OVER_2) },
	{ "PI_OVER_3", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_PI_OVER_3) },
	{ "PI_OVER_4", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_PI_OVER_4) },
	{ "PI_OVER_5", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_PI_OVER_5) },
	{ "PI_OVER_6", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_PI_OVER_6) },
	{ "SQUARE_ROOT_2", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_SQUARE_ROOT_2) },
	{ "SQUARE_ROOT_3", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_SQUARE_ROOT_3) },
	{ "SQUARE_ROOT_5", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_SQUARE_ROOT_5) },
	{ "SQUARE_ROOT_6", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_SQUARE_ROOT_6) },
	{ "POSITIVE_MINIMUM", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_POSITIVE_MINIMUM) },
	{ "POSITIVE_MAXIMUM", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_POSITIVE_MAXIMUM) },
	{ "NAR", T_takum_linear8, (int64_t)(TAKUM_LINEAR8_NAR) },
	{ "2_PI", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_2_PI) },
	{ "2_PI_OVER_3", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_2_PI_OVER_3) },
	{ "2_PI_OVER_5", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_2_PI_OVER_5) },
	{ "3_PI", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_3_PI) },
	{ "3_PI_OVER_2", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_3_PI_OVER_2) },
	{ "3_PI_OVER_4", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_3_PI_OVER_4) },
	{ "3_PI_OVER_5", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_3_PI_OVER_5) },
	{ "4_PI", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_4_PI) },
	{ "4_PI_OVER_3", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_4_PI_OVER_3) },
	{ "4_PI_OVER_5", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_4_PI_OVER_5) },
	{ "5_PI", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_5_PI) },
	{ "5_PI_OVER_2", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_5_PI_OVER_2) },
	{ "5_PI_OVER_3", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_5_PI_OVER_3) },
	{ "5_PI_OVER_4", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_5_PI_OVER_4) },
	{ "5_PI_OVER_6", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_5_PI_OVER_6) },
	{ "6_PI", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_6_PI) },
	{ "6_PI_OVER_5", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_6_PI_OVER_5) },
	{ "GAMMA", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_GAMMA) },
	{ "LB_10", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_LB_10) },
	{ "LB_E", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_LB_E) },
	{ "LG_2", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_LG_2) },
	{ "LG_E", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_LG_E) },
	{ "LN_10", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_LN_10) },
	{ "LN_2", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_LN_2) },
	{ "ONE", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_ONE) },
	{ "PHI", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_PHI) },
	{ "PI", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_PI) },
	{ "PI_OVER_2", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_PI_OVER_2) },
	{ "PI_OVER_3", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_PI_OVER_3) },
	{ "PI_OVER_4", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_PI_OVER_4) },
	{ "PI_OVER_5", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_PI_OVER_5) },
	{ "PI_OVER_6", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_PI_OVER_6) },
	{ "SQUARE_ROOT_2", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_SQUARE_ROOT_2) },
	{ "SQUARE_ROOT_3", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_SQUARE_ROOT_3) },
	{ "SQUARE_ROOT_5", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_SQUARE_ROOT_5) },
	{ "SQUARE_ROOT_6", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_SQUARE_ROOT_6) },
	{ "POSITIVE_MINIMUM", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_POSITIVE_MINIMUM) },
	{ "POSITIVE_MAXIMUM", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_POSITIVE_MAXIMUM) },
	{ "NAR", T_takum_linear16, (int64_t)(TAKUM_LINEAR16_NAR) },
	{ "2_PI", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_2_PI) },
	{ "2_PI_OVER_3", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_2_PI_OVER_3) },
	{ "2_PI_OVER_5", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_2_PI_OVER_5) },
	{ "3_PI", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_3_PI) },
	{ "3_PI_OVER_2", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_3_PI_OVER_2) },
	{ "3_PI_OVER_4", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_3_PI_OVER_4) },
	{ "3_PI_OVER_5", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_3_PI_OVER_5) },
	{ "4_PI", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_4_PI) },
	{ "4_PI_OVER_3", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_4_PI_OVER_3) },
	{ "4_PI_OVER_5", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_4_PI_OVER_5) },
	{ "5_PI", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_5_PI) },
	{ "5_PI_OVER_2", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_5_PI_OVER_2) },
	{ "5_PI_OVER_3", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_5_PI_OVER_3) },
	{ "5_PI_OVER_4", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_5_PI_OVER_4) },
	{ "5_PI_OVER_6", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_5_PI_OVER_6) },
	{ "6_PI", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_6_PI) },
	{ "6_PI_OVER_5", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_6_PI_OVER_5) },
	{ "GAMMA", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_GAMMA) },
	{ "LB_10", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_LB_10) },
	{ "LB_E", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_LB_E) },
	{ "LG_2", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_LG_2) },
	{ "LG_E", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_LG_E) },
	{ "LN_10", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_LN_10) },
	{ "LN_2", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_LN_2) },
	{ "ONE", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_ONE) },
	{ "PHI", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_PHI) },
	{ "PI", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_PI) },
	{ "PI_OVER_2", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_PI_OVER_2) },
	{ "PI_OVER_3", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_PI_OVER_3) },
	{ "PI_OVER_4", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_PI_OVER_4) },
	{ "PI_OVER_5", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_PI_OVER_5) },
	{ "PI_OVER_6", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_PI_OVER_6) },
	{ "SQUARE_ROOT_2", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_SQUARE_ROOT_2) },
	{ "SQUARE_ROOT_3", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_SQUARE_ROOT_3) },
	{ "SQUARE_ROOT_5", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_SQUARE_ROOT_5) },
	{ "SQUARE_ROOT_6", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_SQUARE_ROOT_6) },
	{ "POSITIVE_MINIMUM", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_POSITIVE_MINIMUM) },
	{ "POSITIVE_MAXIMUM", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_POSITIVE_MAXIMUM) },
	{ "NAR", T_takum_linear32, (int64_t)(TAKUM_LINEAR32_NAR) },
	{ "2_PI", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_2_PI) },
	{ "2_PI_OVER_3", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_2_PI_OVER_3) },
	{ "2_PI_OVER_5", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_2_PI_OVER_5) },
	{ "3_PI", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_3_PI) },
	{ "3_PI_OVER_2", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_3_PI_OVER_2) },
	{ "3_PI_OVER_4", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_3_PI_OVER_4) },
	{ "3_PI_OVER_5", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_3_PI_OVER_5) },
	{ "4_PI", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_4_PI) },
	{ "4_PI_OVER_3", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_4_PI_OVER_3) },
	{ "4_PI_OVER_5", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_4_PI_OVER_5) },
	{ "5_PI", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_5_PI) },
	{ "5_PI_OVER_2", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_5_PI_OVER_2) },
	{ "5_PI_OVER_3", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_5_PI_OVER_3) },
	{ "5_PI_OVER_4", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_5_PI_OVER_4) },
	{ "5_PI_OVER_6", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_5_PI_OVER_6) },
	{ "6_PI", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_6_PI) },
	{ "6_PI_OVER_5", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_6_PI_OVER_5) },
	{ "GAMMA", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_GAMMA) },
	{ "LB_10", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_LB_10) },
	{ "LB_E", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_LB_E) },
	{ "LG_2", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_LG_2) },
	{ "LG_E", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_LG_E) },
	{ "LN_10", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_LN_10) },
	{ "LN_2", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_LN_2) },
	{ "ONE", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_ONE) },
	{ "PHI", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_PHI) },
	{ "PI", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_PI) },
	{ "PI_OVER_2", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_PI_OVER_2) },
	{ "PI_OVER_3", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_PI_OVER_3) },
	{ "PI_OVER_4", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_PI_OVER_4) },
	{ "PI_OVER_5", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_PI_OVER_5) },
	{ "PI_OVER_6", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_PI_OVER_6) },
	{ "SQUARE_ROOT_2", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_SQUARE_ROOT_2) },
	{ "SQUARE_ROOT_3", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_SQUARE_ROOT_3) },
	{ "SQUARE_ROOT_5", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_SQUARE_ROOT_5) },
	{ "SQUARE_ROOT_6", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_SQUARE_ROOT_6) },
	{ "POSITIVE_MINIMUM", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_POSITIVE_MINIMUM) },
	{ "POSITIVE_MAXIMUM", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_POSITIVE_MAXIMUM) },
	{ "NAR", T_takum_linear64, (int64_t)(TAKUM_LINEAR64_NAR) },
};
const size_t NUM_CONSTANTS = sizeof(CONSTANTS) / sizeof(CONSTANTS[0]);
