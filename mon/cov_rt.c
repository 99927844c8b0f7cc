/* runtime of the coverage-instrumented build: which edges and comparison
 * outcomes has the workload of this job not produced before? */
#include <stdint.h>
#include <string.h>

struct cov_api {
	uint8_t *start, *stop; /* edge counters of the last call */
	uint8_t seen[1 << 16]; /* comparison features so far */
	uint32_t fresh;
	uint32_t nlog; /* operands of recent comparisons */
	uint64_t log[256][3];
	uint32_t nflog; /* the same of floating-point comparisons */
	long double flog[64][2];
	uint64_t fpc[64];
};
__attribute__((visibility("default"))) struct cov_api COV_API;

void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b)
{
	COV_API.start = a;
	COV_API.stop = b;
}
static inline void feature(uintptr_t pc, uint64_t a, uint64_t b, int bits)
{
	uint64_t x = a ^ b;
	uint32_t d = (uint32_t)__builtin_popcountll(x), lz = x ? (uint32_t)__builtin_clzll(x) : 64;
	uint32_t h = (uint32_t)(pc * 0x9e3779b1u), f;
	f = (h + d * 0x85ebu) & 0xffff;
	if (!COV_API.seen[f]) {
		COV_API.seen[f] = 1;
		COV_API.fresh++;
	}
	f = (h * 31 + lz * 0xc2b3u) & 0xffff;
	if (!COV_API.seen[f]) {
		COV_API.seen[f] = 1;
		COV_API.fresh++;
	}
	(void)bits;
	COV_API.log[COV_API.nlog & 255][0] = a;
	COV_API.log[COV_API.nlog & 255][2] = pc;
	COV_API.log[COV_API.nlog++ & 255][1] = b;
}
/* relative, so that a run does not depend on where it was loaded */
#define PC ((uintptr_t)__builtin_return_address(0) - (uintptr_t)&COV_API)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { feature(PC, a, b, 8); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { feature(PC, a, b, 16); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { feature(PC, (uint64_t)(int32_t)a, (uint64_t)(int32_t)b, 32); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { feature(PC, a, b, 64); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { feature(PC, a, b, 8); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { feature(PC, a, b, 16); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { feature(PC, (uint64_t)(int32_t)a, (uint64_t)(int32_t)b, 32); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { feature(PC, a, b, 64); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases)
{
	uint64_t i;
	for (i = 0; i < cases[0] && i < 64; i++) {
		feature(PC + i, v, cases[2 + i], (int)cases[1]);
	}
}

/* floating-point comparisons: which side, and how many leading digits agree */
static inline void ffeature(uintptr_t pc, long double a, long double b)
{
	long double d = a - b, m = __builtin_fabsl(a) > __builtin_fabsl(b) ? __builtin_fabsl(a) : __builtin_fabsl(b);
	uint32_t h = (uint32_t)(pc * 0x9e3779b1u), f, k;
	if (d != d || m > 0x1.fp16383L) {
		k = a != a ? 200 : b != b ? 201 : 202;
	} else if (d == 0) {
		k = 203;
	} else {
		union { long double f; uint16_t u[8]; } x = {__builtin_fabsl(d)}, y = {m};
		int e = (int)x.u[4] - (int)y.u[4]; /* 1 ... -64 */
		k = e < -70 ? 0 : (uint32_t)(e + 70) | (d < 0 ? 128 : 0);
	}
	f = (h * 13 + k * 0x632bu) & 0xffff;
	if (!COV_API.seen[f]) {
		COV_API.seen[f] = 1;
		COV_API.fresh++;
	}
	COV_API.flog[COV_API.nflog & 63][0] = a;
	COV_API.fpc[COV_API.nflog & 63] = pc;
	COV_API.flog[COV_API.nflog++ & 63][1] = b;
}
void mon_fcmp_float(float a, float b) { ffeature(PC, a, b); }
void mon_fcmp_double(double a, double b) { ffeature(PC, a, b); }
void mon_fcmp_x86_fp80(long double a, long double b) { ffeature(PC, a, b); }
