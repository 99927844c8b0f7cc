/* workload generators */
#include "mon.h"
#include <algorithm>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>

int64_t sx(int n, uint64_t bits)
{
	if (n == 64) {
		return (int64_t)bits;
	}
	return (int64_t)(bits << (64 - n)) >> (64 - n);
}

int64_t clampt(int t, __int128 v)
{
	const Type &T = TYPES[t];
	if (v > T.maxv) {
		return T.maxv;
	}
	if (v < -(__int128)T.maxv) {
		return -T.maxv;
	}
	return (int64_t)v;
}

static void uniq(std::vector<int64_t> &v)
{
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
}

const std::vector<int64_t> &corners(int t)
{
	static std::vector<int64_t> cache[NUM_TYPES];
	std::vector<int64_t> &v = cache[t];
	const Type &T = TYPES[t];
	int n = T.n;

	if (!v.empty()) {
		return v;
	}
	if (n == 8) {
		for (int i = -128; i < 128; i++) {
			v.push_back(i);
		}
		return v;
	}
	Rng r(77 + t);
	v.push_back(0);
	v.push_back(T.nar);
	for (int S = 0; S < 2; S++) {
		for (int DR = 0; DR < 16; DR++) {
			int rr = DR >= 8 ? DR - 8 : 7 - DR;
			int p = n - 5 - rr;
			uint64_t Cm = (1u << rr) - 1, Mm = (1ULL << p) - 1;
			std::vector<uint64_t> cs = {0, 1, 2, Cm / 2, Cm / 2 + 1, Cm - 1, Cm};
			for (int k = 0; k < 3; k++) {
				cs.push_back(r.next());
			}
			for (auto &c : cs) {
				c &= Cm;
			}
			std::sort(cs.begin(), cs.end());
			cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
			std::vector<uint64_t> ms = {0, 1, 2, 3, 4, 5, 7, 8, Mm, Mm - 1, Mm - 2,
				Mm / 2, Mm / 2 + 1, Mm / 2 + 2, Mm / 4, Mm / 4 * 3 + 1,
				0x5555555555555555ULL, 0xaaaaaaaaaaaaaaaaULL};
			for (int b = 0; b < p; b++) {
				ms.push_back(1ULL << b);
				ms.push_back((1ULL << b) - 1);
				ms.push_back(~((1ULL << b) - 1));
				if (n > 16 && b > 2) {
					/* just above and just below a midpoint of a coarser grid */
					ms.push_back((r.next() << (b + 1)) | (1ULL << b));
					ms.push_back((r.next() << (b + 1)) | ((1ULL << b) - 1));
				}
			}
			for (int k = 0; k < 6; k++) {
				ms.push_back(r.next());
			}
			for (auto c : cs) {
				for (auto m : ms) {
					v.push_back(sx(n, ((uint64_t)S << (n - 1)) |
						((uint64_t)DR << (n - 5)) | (c << p) | (m & Mm)));
				}
			}
		}
	}
	uniq(v);
	return v;
}

static std::vector<int64_t> d_ints;
static std::vector<long double> d_floats;
static void load_dict()
{
	static bool loaded = false;
	if (loaded) {
		return;
	}
	loaded = true;
	FILE *f = opt.dict.empty() ? nullptr : fopen(opt.dict.c_str(), "r");
	char line[512];
	if (!f) {
		return;
	}
	while (fgets(line, sizeof line, f)) {
		if (line[0] == 'i') {
			d_ints.push_back((int64_t)strtoull(line + 2, nullptr, 0));
		} else if (line[0] == 'f') {
			d_floats.push_back(strtold(line + 2, nullptr));
		}
	}
	fclose(f);
}
const std::vector<int64_t> &dict_ints()
{
	load_dict();
	return d_ints;
}
const std::vector<long double> &dict_floats()
{
	load_dict();
	return d_floats;
}

const std::vector<int64_t> &dictionary(int t)
{
	static std::vector<int64_t> cache[NUM_TYPES];
	std::vector<int64_t> &v = cache[t];
	const Type &T = TYPES[t];
	if (!v.empty()) {
		return v;
	}
	load_dict();
	auto add = [&](int64_t x) {
		for (int k = -2; k <= 2; k++) {
			int64_t y = sx(T.n, (uint64_t)x + (uint64_t)k);
			v.push_back(y);
			if (y != T.nar) {
				v.push_back(-y);
			}
		}
	};
	for (auto i : d_ints) {
		add(i);
		if (T.n == 64) {
			add(i << 48);
			add(i << 32);
		} else if (T.n == 32) {
			add(i << 16);
			add(i >> 32);
		} else {
			add(i >> (64 - T.n));
			add(i >> (32 - T.n));
		}
		add(or_encode(T, (Q)i));
	}
	for (auto x : d_floats) {
		if (std::isfinite(x)) {
			add(or_encode(T, (Q)x));
			if (x != 0) {
				add(or_encode(T, 1 / (Q)x));
			}
			if (!T.lin && fabsl(x) < 300) {
				/* as a logarithmic value */
				add(or_round_pos(T, qmin(qmax(or_pos(T.n, (Q)x), 1), (Q)T.maxv)));
			}
		}
	}
	v.push_back(0);
	uniq(v);
	return v;
}

const std::vector<int64_t> &specials(int t)
{
	static std::vector<int64_t> cache[NUM_TYPES];
	std::vector<int64_t> &v = cache[t];
	const Type &T = TYPES[t];
	if (!v.empty()) {
		return v;
	}
	std::vector<Q> q;
	for (int k = 1; k <= 64; k++) {
		q.push_back(k);
		q.push_back(k - 0.5Q);
		q.push_back((Q)k / 4);
		q.push_back(k * Q_PI / 4);
		q.push_back(k * Q_PI / 6);
		q.push_back(k * Q_LN2);
		q.push_back(k * Q_LN10);
		q.push_back(sqrtq(k));
		q.push_back(1.0Q / k);
		q.push_back(powq(10, k));
		q.push_back(powq(10, -k));
		q.push_back(1 + q2(-k));
		q.push_back(1 - q2(-k));
		q.push_back(2 + q2(-k));
		q.push_back(2 - q2(-k));
	}
	for (int k = -258; k <= 258; k++) {
		q.push_back(q2(k));
		q.push_back(q2(k) * 1.5Q);
		if (k > 0 && k < 66) {
			q.push_back(q2(k) + 1);
			q.push_back(q2(k) - 1);
			q.push_back(q2(k) + 0.5Q);
			q.push_back(q2(k) - 0.5Q);
			q.push_back(q2(k) * Q_PI);
		}
	}
	for (int k = -127; k <= 127; k++) {
		q.push_back(expq(k));
		q.push_back(expq(k + 0.5Q));
	}
	static const double th[] = {127.5, 88.02969193111305, 88.7228391, 103.97208, 104,
		709.782712893384, 744.4400719213812, 745.1332191019412, 11356.5234062941439,
		11399.498531488861, 16383, 16384, 16445, 16446, 1024, 1074, 1075, 1022, 127,
		128, 149, 150, 126, 308.25, 307.65, 323.3, 4932.0, 4950.9, 176.75253104278607,
		177.4456782234, 255, 254, 76.76, 76.463, 55.373, 110.75, 22, 44, 0.3465735902799727,
		0.25, 0.75, 0.5, 1e4, 37.43, 18.7, 19.06, 21.9, 45.0, 7.0, 14.0, 28.0, 0.7853981633974483};
	for (double d : th) {
		q.push_back(d);
	}
	for (size_t i = 0; i < NUM_CONSTANTS; i++) {
		if (CONSTANTS[i].type == t) {
			for (int k = -3; k <= 3; k++) {
				v.push_back(clampt(t, (__int128)CONSTANTS[i].value + k));
				v.push_back(clampt(t, -((__int128)CONSTANTS[i].value + k)));
			}
		}
	}
	for (Q x : q) {
		int64_t e = or_encode(T, x);
		for (int k = -3; k <= 3; k++) {
			v.push_back(clampt(t, (__int128)e + k));
			v.push_back(clampt(t, -((__int128)e + k)));
		}
	}
	uniq(v);
	return v;
}

static int64_t from_lambda(Rng &r, const Type &T, Q lam, bool neg)
{
	int64_t e = or_round_pos(T, qmin(qmax(or_pos(T.n, lam), 1), (Q)T.maxv));
	(void)r;
	return neg ? -e : e;
}

int64_t draw(Rng &r, int t)
{
	const Type &T = TYPES[t];
	const std::vector<int64_t> *v;
	int k = (int)r.below(100);
	if (k < 25) {
		return sx(T.n, r.next());
	} else if (k < 45) {
		v = &corners(t);
		return (*v)[r.below(v->size())];
	} else if (k < 60) {
		return from_lambda(r, T, (Q)((r.unit() - 0.5) * 16) + (Q)(r.unit() * 0x1p-50), r.next() & 1);
	} else if (k < 72) {
		return from_lambda(r, T, (Q)((r.unit() - 0.5) * 510) + (Q)(r.unit() * 0x1p-50), r.next() & 1);
	} else if (k < 82) {
		v = &specials(t);
		int64_t off = r.chance(1, 2) ? 0 : (int64_t)(r.next() >> (63 - r.below((uint64_t)T.n / 2)));
		return clampt(t, (__int128)(*v)[r.below(v->size())] + (r.next() & 1 ? off : -off));
	} else if (k < 88) {
		v = &dictionary(t);
		size_t i = r.below(v->size());
		switch (r.below(4)) {
		case 0: { /* near a literal */
			int64_t off = (int64_t)(r.next() >> (63 - r.below((uint64_t)T.n / 2)));
			return clampt(t, (__int128)(*v)[i] + (r.next() & 1 ? off : -off));
		}
		case 1: /* between two literals */
			if (i + 1 < v->size()) {
				uint64_t w = (uint64_t)(*v)[i + 1] - (uint64_t)(*v)[i];
				return w ? (int64_t)((uint64_t)(*v)[i] + r.below(w)) : (*v)[i];
			}
			return (*v)[i];
		default: return (*v)[i];
		}
	} else if (k < 91) { /* integers, halves, quarters */
		Q x = (Q)(r.next() >> (1 + r.below(63))) / (Q)(1 << r.below(3));
		int64_t e = or_encode(T, x == 0 ? 1 : x);
		e = clampt(t, (__int128)e + (r.chance(1, 3) ? (int)r.below(5) - 2 : 0));
		return r.next() & 1 ? e : -e;
	} else if (k < 98) {
		int64_t one = (int64_t)1 << (T.n - 2);
		int64_t off = (int64_t)(r.next() & ((1ULL << (1 + r.below((uint64_t)T.n - 3))) - 1));
		int64_t x = clampt(t, (__int128)one + (r.next() & 1 ? off : -off));
		return r.next() & 1 ? x : -x;
	} else if (k < 99) {
		return 0;
	}
	return T.nar;
}

int64_t draw_partner(Rng &r, int t, int64_t a)
{
	const Type &T = TYPES[t];
	__int128 inv, off;
	if (a == T.nar || a == 0) {
		return draw(r, t);
	}
	off = (__int128)(r.next() >> (63 - r.below((uint64_t)T.n - 2)));
	if (r.next() & 1) {
		off = -off;
	}
	inv = ((__int128)1 << (T.n - 1)) - (a < 0 ? -(__int128)a : (__int128)a);
	switch (r.below(18)) {
	case 13: { /* agree in the low bits */
		uint64_t m = (1ULL << (1 + r.below((uint64_t)T.n - 2))) - 1, x = (uint64_t)(r.next() & 1 ? a : -a);
		return sx(T.n, (x & m) | ((r.chance(1, 3) ? x ^ (m + 1) : r.next()) & ~m));
	}
	case 14: { /* agree in the fraction */
		int k = (int)r.below(511) - 255;
		if (r.chance(1, 2)) {
			k = (1 << r.below(9)) * (r.next() & 1 ? 1 : -1) * (r.chance(1, 3) ? 3 : 1);
		}
		return from_lambda(r, T, or_ell(T, a) + (Q)k, r.next() & 1);
	}
	case 15:
	case 16: { /* a special or a literal as the result of an operation */
		const std::vector<int64_t> &v = r.next() & 1 ? dictionary(t) : specials(t);
		int64_t w = clampt(t, (__int128)v[r.below(v.size())] + (r.chance(1, 2) ? 0 : (int64_t)(r.next() >> (63 - r.below((uint64_t)T.n / 2)) >> 1)));
		Q x = or_value(T, a), y = or_value(T, w), b;
		if (w == T.nar || w == 0) {
			return draw(r, t);
		}
		switch (r.below(6)) {
		case 0: b = y - x; break;
		case 1: b = x - y; break;
		case 2: b = y / x; break;
		case 3: b = x / y; break;
		case 4: b = sqrtq(qabs(y * y - x * x)); break;
		default: b = qabs(x) == 1 ? y : logq(qabs(y)) / logq(qabs(x)); break;
		}
		if (b == 0 || isnanq(b) || isinfq(b)) {
			return -a;
		}
		return clampt(t, (__int128)or_encode(T, b) + (r.chance(1, 3) ? (int)r.below(5) - 2 : 0));
	}
	case 0: return a;
	case 1: return -a;
	case 2: return clampt(t, (__int128)a + (int)r.below(9) - 4);
	case 3: return clampt(t, -(__int128)a + (int)r.below(9) - 4);
	case 4: return clampt(t, (__int128)a + off);
	case 5: return clampt(t, -((__int128)a + off));
	case 6: return clampt(t, (r.next() & 1 ? inv : -inv) + (int)r.below(5) - 2);
	case 7: { /* absorption range: magnitudes apart by about the precision */
		Q l = or_ell(T, a) + (Q)((r.unit() - 0.5) * 4 * (or_p(T, a) + 3));
		return from_lambda(r, T, l, r.next() & 1);
	}
	case 8: { /* products and quotients around the saturation limits */
		Q l = or_ell(T, a), target = (Q)(254 + 2 * r.unit());
		if (r.next() & 1) {
			target = -target;
		}
		return from_lambda(r, T, r.next() & 1 ? target - l : l - target, r.next() & 1);
	}
	case 9: { /* powers, roots and small multiples of the other operand */
		static const double k[] = {2, 0.5, -2, -0.5, 3, -3, 1.0 / 3, 1, -1};
		Q l = or_ell(T, a) * (Q)k[r.below(9)];
		if (r.chance(1, 3)) {
			l += (Q)((int)r.below(17) - 8) * (T.lin ? 1 : 2 * Q_LN2);
		}
		int64_t e = from_lambda(r, T, l, r.next() & 1);
		return clampt(t, (__int128)e + (r.next() & 1 ? (int)r.below(5) - 2 : 0));
	}
	default: return draw(r, t);
	}
}

int64_t draw_int(Rng &r)
{
	switch (r.below(10)) {
	case 0: return (int64_t)r.below(9) - 4;
	case 1:
	case 2: return (int64_t)r.below(257) - 128;
	case 3: return (int64_t)r.below(20001) - 10000;
	case 4: {
		int64_t v = (int64_t)(1ULL << r.below(63)) + (int64_t)r.below(5) - 2;
		return r.next() & 1 ? v : -v;
	}
	case 5: return (int64_t)(r.next() >> r.below(63)) * (r.next() & 1 ? 1 : -1);
	case 6: {
		static const int64_t e[] = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1,
			INT32_MIN, INT32_MAX, (int64_t)INT32_MIN - 1, (int64_t)INT32_MAX + 1,
			(int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1, INT16_MIN, INT16_MAX, 127, -128,
			255, 256, 65535, 65536, ((int64_t)1 << 53) + 1, ((int64_t)1 << 24) + 1,
			-((int64_t)1 << 53) - 1, -((int64_t)1 << 24) - 1};
		return e[r.below(sizeof e / sizeof *e)];
	}
	case 7: return (int64_t)r.next();
	case 8: {
		const std::vector<int64_t> &d = dict_ints();
		if (d.empty()) {
			return 3;
		}
		int64_t v = d[r.below(d.size())];
		return r.next() & 1 ? v : (int64_t)((uint64_t)0 - (uint64_t)v);
	}
	default: return (int64_t)r.below(33) - 16;
	}
}

std::string tcase(const char *fn, int t, int64_t a)
{
	char b[256];
	snprintf(b, sizeof b, "%s_%s(%lld)", TYPES[t].name, fn, (long long)a);
	return b;
}
std::string tcase2(const char *fn, int t, int64_t a, int64_t b2)
{
	char b[256];
	snprintf(b, sizeof b, "%s_%s(%lld, %lld)", TYPES[t].name, fn, (long long)a, (long long)b2);
	return b;
}
std::string hexl(long double f)
{
	char b[64];
	snprintf(b, sizeof b, "%La", f);
	return b;
}
