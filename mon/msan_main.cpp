/*
 * MemorySanitizer driver: no C++ library, everything instrumented.  Calls every
 * public function and checks that the whole result is initialised; reads of
 * uninitialised memory inside the library are reported by the instrumentation.
 * usage: msan_main SEED CALLS_PER_FUNCTION
 */
#include "types.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
#include <sanitizer/msan_interface.h>

static uint64_t st;
static uint64_t rnd()
{
	uint64_t z = (st += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static int64_t operand(const Type &T)
{
	uint64_t b = rnd();
	switch (rnd() % 6) {
	case 0: return T.nar;
	case 1: return 0;
	case 2: { /* around one, minimum, maximum */
		int64_t o[] = {(int64_t)1 << (T.n - 2), 1, T.maxv, -1, -T.maxv};
		int64_t x = o[rnd() % 5] + (int64_t)(rnd() % 3) - 1;
		return x > T.maxv || x < -T.maxv ? T.maxv : x;
	}
	default: break;
	}
	return T.n == 64 ? (int64_t)b : (int64_t)(b << (64 - T.n)) >> (64 - T.n);
}
static long double real()
{
	static const long double e[] = {0.0L, -0.0L, INFINITY, -INFINITY, NAN, 1e-320L, 1e-45L, 1e300L, 1e4900L, 1e-4940L};
	if (rnd() % 5 == 0) {
		return e[rnd() % 10];
	}
	return ldexpl((long double)(int64_t)rnd(), (int)(rnd() % 700) - 400);
}
static unsigned long calls;
static void chk(const void *p, size_t n, const char *type, const char *fn, int64_t a, int64_t b)
{
	calls++;
	if (__msan_test_shadow(p, n) >= 0) {
		printf("MSAN %s_%s a=%lld b=%lld: result is not fully initialised\n", type, fn, (long long)a, (long long)b);
		exit(1);
	}
}
extern "C" void __msan_set_death_callback(void (*)(void));
static const char *cur_t = "?", *cur_f = "?";
static int64_t cur_a, cur_b;
static void death()
{
	printf("MSAN %s_%s a=%lld b=%lld: use of uninitialised memory\n", cur_t, cur_f, (long long)cur_a, (long long)cur_b);
	fflush(stdout);
}
static unsigned long begun;
static void watch(int)
{
	static unsigned long last = ~0UL;
	if (begun == last) { /* ten seconds of processor time in one call */
		char b[200];
		int k = snprintf(b, sizeof b, "MSAN %s_%s a=%lld b=%lld: does not return\n", cur_t, cur_f, (long long)cur_a, (long long)cur_b);
		if (write(1, b, (size_t)k) > 0) {
			_exit(1);
		}
	}
	last = begun;
}
#define CUR(FN, A, B) (begun++, cur_t = T.name, cur_f = FN, cur_a = (A), cur_b = (B))
int main(int argc, char **argv)
{
	long n = argc > 2 ? atol(argv[2]) : 200;
	st = argc > 1 ? strtoull(argv[1], nullptr, 10) * 77 + 5 : 1;
	__msan_set_death_callback(death);
	signal(SIGPROF, watch);
	struct itimerval tv = {{10, 0}, {10, 0}};
	setitimer(ITIMER_PROF, &tv, nullptr);
	for (int t = 0; t < NUM_TYPES; t++) {
		const Type &T = TYPES[t];
		for (long i = 0; i < n; i++) {
			int64_t r;
			for (int f = 0; f < NUM_UNARY; f++) {
				int64_t a = operand(T);
				CUR(UNARY_NAMES[f], a, 0);
				r = T.un[f](a);
				chk(&r, sizeof r, T.name, UNARY_NAMES[f], a, 0);
			}
			for (int f = 0; f < NUM_BINARY; f++) {
				int64_t a = operand(T), b = operand(T);
				CUR(BINARY_NAMES[f], a, b);
				r = T.bin[f](a, b);
				chk(&r, sizeof r, T.name, BINARY_NAMES[f], a, b);
			}
			for (int f = 0; f < NUM_INT; f++) {
				int64_t a = operand(T), b = rnd() % 3 ? (int64_t)(rnd() % 40) - 20 : (int64_t)rnd();
				CUR(INT_NAMES[f], a, b);
				r = T.ipow[f](a, b);
				chk(&r, sizeof r, T.name, INT_NAMES[f], a, b);
			}
			int64_t a = operand(T);
			long double x = real();
			CUR("precision", a, 0);
			int p = T.precision(a);
			chk(&p, sizeof p, T.name, "precision", a, 0);
			CUR("to_float32", a, 0);
			float f32 = T.to_f32(a);
			chk(&f32, sizeof f32, T.name, "to_float32", a, 0);
			CUR("to_float64", a, 0);
			double f64 = T.to_f64(a);
			chk(&f64, sizeof f64, T.name, "to_float64", a, 0);
			CUR("to_extended_float", a, 0);
			long double ext = T.to_ext(a);
			chk(&ext, 10, T.name, "to_extended_float", a, 0);
			CUR("from_float32", 0, 0);
			r = T.from_f32((float)x);
			chk(&r, sizeof r, T.name, "from_float32", 0, 0);
			CUR("from_float64", 0, 0);
			r = T.from_f64((double)x);
			chk(&r, sizeof r, T.name, "from_float64", 0, 0);
			CUR("from_extended_float", 0, 0);
			r = T.from_ext(x);
			chk(&r, sizeof r, T.name, "from_extended_float", 0, 0);
			for (int s = 0; s < NUM_TYPES; s++) {
				if (s != t) {
					a = operand(TYPES[s]);
					CUR(TYPES[s].name, a, 0);
					r = T.from_type[s](a);
					chk(&r, sizeof r, T.name, "from_type", a, 0);
				}
			}
		}
	}
	printf("calls %lu\n", calls);
	return 0;
}
