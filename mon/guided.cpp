#include "guided.h"
#include <algorithm>
#include <dlfcn.h>
#include <float.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>

struct CovApi { /* as in cov_rt.c */
	uint8_t *start, *stop;
	uint8_t seen[1 << 16];
	uint32_t fresh, nlog;
	uint64_t log[256][3];
	uint32_t nflog;
	long double flog[64][2];
	uint64_t fpc[64];
};
static CovApi *api;
static const Type *tab;
/* comparisons to learn from: those of the last own_l/own_f (0: any recent) */
static uint32_t own_l, own_f;

bool have_cov() { return !opt.cov.empty(); }
static void load()
{
	if (api) {
		return;
	}
	void *h = dlopen(opt.cov.c_str(), RTLD_NOW | RTLD_LOCAL);
	api = h ? (CovApi *)dlsym(h, "COV_API") : nullptr;
	tab = h ? (const Type *)dlsym(h, "TYPES") : nullptr;
	if (!api || !tab || !api->start) {
		fprintf(stderr, "dlopen %s: %s\n", opt.cov.c_str(), dlerror());
		_Exit(97);
	}
}

static int fmt_of(int kind) { return kind == K_FROM32 ? 0 : kind == K_FROM64 ? 1 : kind == K_FROMEXT ? 2 : -1; }
static int type_of(const Case &k) { return k.kind == K_CONV ? k.src : k.type; }

static long double canon(int fmt, long double f) { return fmt == 0 ? (long double)(float)f : fmt == 1 ? (long double)(double)f : f; }
/* the value that makes the sides of a recent floating-point comparison meet,
 * if the compared value is the operand plus, or times, a constant */
static long double meet(Ctx &c, long double v)
{
	long double *p = api->flog[(api->nflog - 1 - c.rng.below(own_f ? own_f : std::min<uint64_t>(api->nflog, 12))) & 63];
	int s = (int)c.rng.below(2);
	long double a = p[s], b = p[1 - s];
	switch (c.rng.below(6)) {
	case 0: return b;
	case 1: return -b;
	case 2: return v - (b - a);
	case 3: return a != 0 ? v * (b / a) : b;
	case 4: return a != 0 && b / a > 0 ? v * sqrtl(b / a) : b;
	default: return v + (b - a);
	}
}
static int64_t nudge(Ctx &c, int t, int64_t x)
{
	const Type &T = TYPES[t];
	long double v = meet(c, T.to_ext(x));
	if (!T.lin && c.rng.chance(1, 3)) { /* the logarithm was compared */
		long double l = meet(c, 2 * logl(fabsl(T.to_ext(x))));
		v = copysignl(expl(l / 2), v);
	}
	return sx(T.n, (uint64_t)T.from_ext(v) + (c.rng.next() & 1 ? 0 : c.rng.below(5) - 2));
}
static int64_t twist(Ctx &c, int n, int64_t x, int64_t other)
{
	Rng &r = c.rng;
	uint64_t v = (uint64_t)x;
	for (int k = 1 + (int)r.below(3); k > 0; k--) {
		uint64_t bit = 1ULL << r.below((uint64_t)n);
		switch (r.below(10)) {
		case 0: case 1: case 2: v ^= bit; break;
		case 3: v += bit; break;
		case 4: v -= bit; break;
		case 5: v = 0 - v; break;
		case 6: v &= ~(bit - 1); break;
		case 7: v |= bit - 1; break;
		case 8: v = (v & ~(bit - 1)) | ((uint64_t)other & (bit - 1)); break;
		default:
			if (api->nlog) { /* an operand of a recent comparison becomes the other one */
				uint64_t *p = api->log[(api->nlog - 1 - r.below(own_l ? own_l : std::min<uint64_t>(api->nlog, 64))) & 255];
				int s = (int)r.below(2);
				uint64_t m = n == 64 ? ~0ULL : (1ULL << n) - 1, a = p[s], b = p[1 - s], w = a | b;
				if (r.chance(1, 8)) {
					v ^= a ^ b;
				} else if (((v ^ a) & m) == 0 || r.chance(1, 4)) {
					v = b + r.below(3) - 1;
				} else if (w && r.chance(2, 3)) {
					/* the compared value is a field of the operand */
					uint64_t f = w;
					for (int i = 1; i < 64; i *= 2) f |= f >> i;
					if (f >> 63 || r.chance(1, 4)) f &= 0xffffffffULL >> (r.next() & 1 ? 16 * r.below(2) : 0);
					a &= f;
					b &= f;
					int tz = a | b ? __builtin_ctzll(a | b) : 0, sh0 = (int)r.below((uint64_t)n), i;
					for (i = 0; i < n; i++) {
						int sh = (sh0 + i) % n;
						if (((v >> sh) & f) == a) {
							v = (v & ~(f << sh)) | (b << sh);
							break;
						}
						if (sh <= tz && (((v & f >> sh) << sh) & f) == a) {
							v = (v & ~(f >> sh)) | (b >> sh);
							break;
						}
					}
					if (i == n) {
						v += (b - a) << sh0;
					}
				} else {
					v += p[1 - s] - p[s];
				}
			}
		}
	}
	return sx(n, v);
}
static Case pick(Rng &r, const std::vector<Case> &corpus)
{
	return corpus[r.chance(1, 2) ? r.below(corpus.size()) : corpus.size() - 1 - r.below(std::min<size_t>(corpus.size(), 8))];
}
static Case mutate(Ctx &c, Case k, const std::vector<Case> &corpus)
{
	Rng &r = c.rng;
	const Case &o = corpus[r.below(corpus.size())];
	int f = fmt_of(k.kind), n = TYPES[type_of(k)].n;
	if (f >= 0) {
		if (r.chance(1, 6) || k.f != k.f || std::isinf(k.f)) {
			k.f = canon(f, draw_float(r, k.type, f));
		} else {
			uint64_t m;
			memcpy(&m, &k.f, 8);
			int keep = f == 0 ? 40 : f == 1 ? 11 : 0; /* low bits the format lacks */
			switch (r.below(api->nflog ? 6 : 4)) {
			case 4: k.f = meet(c, k.f); break;
			case 5:
				k.f = r.next() & 1 ? copysignl(expl(meet(c, 2 * logl(fabsl(k.f))) / 2), k.f) : meet(c, k.f);
				k.f = r.next() & 1 ? nextafterl(k.f, INFINITY) : nextafterl(k.f, -INFINITY);
				break;
			case 0: k.f = ldexpl(k.f, (int)r.below(9) - 4); break;
			case 1: k.f = -k.f; break;
			default:
				m ^= 1ULL << (keep + (int)r.below((uint64_t)(63 - keep)));
				if (m >> 63) memcpy(&k.f, &m, 8);
			}
			k.f = canon(f, k.f);
		}
		return k;
	}
	bool second = (k.kind == K_BINARY || k.kind == K_INT) && (r.next() & 1);
	if (api->nflog && k.kind == K_BINARY && r.chance(1, 6)) {
		/* move both, keeping ratio, product, difference or sum */
		const Type &T = TYPES[k.type];
		long double x = T.to_ext(k.a), y = T.to_ext(k.b), m = meet(c, 1), d = meet(c, 0);
		switch (r.below(5)) {
		case 0: x *= m; y *= m; break;
		case 1: x *= m; y /= m; break;
		case 2: x /= m; y *= m; break;
		case 3: x += d; y += d; break;
		default: x += d; y -= d; break;
		}
		k.a = T.from_ext(x);
		k.b = T.from_ext(y);
	} else if (api->nflog && r.chance(1, 3)) {
		if (!second) {
			k.a = nudge(c, type_of(k), k.a);
		} else if (k.kind == K_BINARY) {
			k.b = nudge(c, type_of(k), k.b);
		} else {
			long double v = meet(c, (long double)k.b);
			k.b = v >= -0x1p63L && v < 0x1p63L ? (int64_t)v : k.b;
		}
	} else if (second) {
		k.b = twist(c, k.kind == K_INT ? 64 : n, k.b, r.next() & 1 ? o.b : k.a);
	} else {
		k.a = twist(c, n, k.a, r.next() & 1 ? o.a : k.b);
	}
	if (k.kind == K_BINARY) {
		if (r.chance(1, 8)) k.b = sx(n, (uint64_t)o.b);
		if (r.chance(1, 12)) k.b = k.a;
		if (r.chance(1, 12)) k.a = sx(n, (uint64_t)o.a);
	} else if (k.kind == K_INT && r.chance(1, 8)) {
		k.b = o.b;
	}
	return k;
}

/* ---- one search ------------------------------------------------------- */
struct Search {
	Ctx &c;
	const Callee &ce;
	std::vector<Case> corpus;
	std::vector<uint8_t> hit;
	uint64_t edges = 0, execs = 0;
	uint32_t l0 = 0, f0 = 0; /* where the comparisons of the last call start */

	Search(Ctx &ctx, const Callee &callee) : c(ctx), ce(callee), hit((size_t)(api->stop - api->start), 0)
	{
		memset(api->seen, 0, sizeof api->seen);
		api->nlog = api->nflog = 0;
	}
	void run(const Case &k)
	{
		size_t n = hit.size();
		memset(api->start, 0, n);
		api->fresh = 0;
		l0 = api->nlog;
		f0 = api->nflog;
		(void)call_bits(tab, k);
		if (!(execs++ & 1023)) {
			c.tick();
		}
		bool fresh = api->fresh > 0;
		for (size_t j = 0; j < n; j += 8) {
			uint64_t w = 0;
			memcpy(&w, api->start + j, std::min<size_t>(8, n - j));
			if (!w) {
				continue;
			}
			for (size_t b = j; b < j + 8 && b < n; b++) {
				uint8_t v = api->start[b];
				if (!v) {
					continue;
				}
				uint8_t bucket = (uint8_t)(1 << (v < 4 ? v - 1 : v < 8 ? 3 : v < 16 ? 4 : v < 32 ? 5 : v < 128 ? 6 : 7));
				if (!(hit[b] & bucket)) {
					edges += !hit[b];
					hit[b] |= bucket;
					fresh = true;
				}
			}
		}
		if (fresh && corpus.size() < 1500) {
			corpus.push_back(k);
		}
	}
	/* difference of the sides of the occ-th comparison at pc in the last call */
	bool gap(bool fl, uint64_t pc, uint32_t occ, long double &g)
	{
		uint32_t e = fl ? api->nflog : api->nlog, m = fl ? 63 : 255;
		for (uint32_t i = fl ? f0 : l0; i != e; i++) {
			if (e - i > m) {
				continue;
			}
			if ((fl ? api->fpc[i & m] : api->log[i & m][2]) != pc || occ--) {
				continue;
			}
			g = fl ? api->flog[i & m][0] - api->flog[i & m][1] :
				 (long double)(int64_t)(api->log[i & m][0] - api->log[i & m][1]);
			return g == g && g <= LDBL_MAX && g >= -LDBL_MAX;
		}
		return false;
	}
	static long double order(long double f)
	{
		if (!(fabsl(f) <= LDBL_MAX) || f == 0) {
			return 0;
		}
		int e;
		long double m = frexpl(fabsl(f), &e);
		return copysignl((long double)(e + 20000) + 2 * m - 2, f);
	}
	static long double unorder(long double x)
	{
		long double i = floorl(fabsl(x));
		return i < 100 ? 0 : copysignl(ldexpl((1 + fabsl(x) - i) / 2, (int)i - 20000 + 1), x);
	}
	/* find an operand for which the two sides of some comparison are equal */
	void solve(Case k)
	{
		Rng &r = c.rng;
		int f = fmt_of(k.kind), n = TYPES[type_of(k)].n;
		bool second = (k.kind == K_BINARY || k.kind == K_INT) && (r.next() & 1);
		if (second && k.kind == K_INT) n = 64;
		const long double lim = ldexpl(1, n - 1);
		const bool logarithmic = r.next() & 1;
		auto get = [&]() { return f >= 0 ? logarithmic ? order(k.f) : k.f : (long double)(second ? k.b : k.a); };
		auto put = [&](long double x) {
			if (f >= 0) {
				k.f = canon(f, logarithmic ? unorder(x) : x);
			} else {
				int64_t v = x >= lim ? (int64_t)(((uint64_t)1 << (n - 1)) - 1) :
					    x <= -lim ? -(int64_t)(((uint64_t)1 << (n - 1)) - 1) : (int64_t)rintl(x);
				(second ? k.b : k.a) = v;
			}
			run(k);
		};
		run(k);
		uint32_t cnt = std::min<uint32_t>(api->nflog - f0, 60), icnt = std::min<uint32_t>(api->nlog - l0, 250);
		bool fl = cnt && (!icnt || r.chance(3, 4));
		if (!(fl ? cnt : icnt)) {
			return;
		}
		uint32_t at = (fl ? api->nflog : api->nlog) - 1 - (uint32_t)r.below(fl ? cnt : icnt), occ = 0;
		uint64_t pc = fl ? api->fpc[at & 63] : api->log[at & 255][2];
		for (uint32_t i = fl ? f0 : l0; i != at; i++) {
			occ += (fl ? api->fpc[i & 63] : api->log[i & 255][2]) == pc;
		}
		long double x0 = get(), g0, x1, g1, lo = 0, hi = 0;
		if (!gap(fl, pc, occ, g0) || g0 == 0) {
			return;
		}
		bool bracket = false;
		if (f < 0 && r.next() & 1) { /* the operand itself, perhaps reduced or shifted */
			for (int i = 0; i < 2; i++) {
				put(i ? x0 + g0 : x0 - g0);
				if (gap(fl, pc, occ, g1) && g1 == 0) {
					c.stat["guided_solutions"]++;
					return;
				}
			}
		}
		for (int tries = 0; ; tries++) {
			long double step = f >= 0 ? x0 * ldexpl(1, -(int)r.below(30)) : ldexpl(1, (int)r.below((uint64_t)n));
			put(x0 + (r.next() & 1 ? step : -step));
			x1 = get();
			if (x1 != x0 && gap(fl, pc, occ, g1) && g1 != g0) {
				break;
			}
			if (tries == 6) {
				return;
			}
		}
		for (int i = 0; i < 40 && g1 != 0; i++) {
			if ((g0 < 0) != (g1 < 0)) {
				bracket = true;
				lo = x0;
				hi = x1;
			}
			long double x = x1 - g1 * ((x1 - x0) / (g1 - g0)), g;
			if (bracket && ((i & 1) || !(x > std::min(lo, hi) && x < std::max(lo, hi)))) {
				x = lo / 2 + hi / 2;
			}
			if (!(x == x)) {
				return;
			}
			put(x);
			x = get();
			if (!gap(fl, pc, occ, g)) {
				return;
			}
			if (x == x1 || x == x0) {
				break;
			}
			if (bracket) {
				if ((g < 0) == (g0 < 0)) {
					x0 = x;
					g0 = g;
				} else {
					x1 = x;
					g1 = g;
				}
			} else {
				x0 = x1;
				g0 = g1;
				x1 = x;
				g1 = g;
			}
			if (g0 == g1) {
				break;
			}
		}
		c.stat["guided_solutions"] += g1 == 0 || bracket;
	}
};

std::vector<Case> evolve(Ctx &c, const Callee &ce, uint64_t execs)
{
	load();
	Search s(c, ce);
	std::vector<Case> todo;
	while (s.execs < execs) {
		if (!s.corpus.empty() && c.rng.chance(1, 40)) {
			s.solve(c.rng.next() & 1 ? pick(c.rng, s.corpus) : draw_call(c.rng, ce, nullptr));
		} else if (s.corpus.empty() || c.rng.chance(1, 5)) {
			s.run(draw_call(c.rng, ce, s.corpus.empty() ? nullptr : &s.corpus[c.rng.below(s.corpus.size())]));
		} else {
			Case k = pick(c.rng, s.corpus);
			if (c.rng.chance(1, 3)) {
				/* see its comparisons, then work on those */
				s.run(k);
				own_l = std::min<uint32_t>(api->nlog - s.l0, 250);
				own_f = std::min<uint32_t>(api->nflog - s.f0, 60);
				for (int i = 0; i < 3; i++) {
					todo.push_back(mutate(c, k, s.corpus));
				}
				own_l = own_f = 0;
				for (auto &x : todo) {
					s.run(x);
				}
				todo.clear();
			} else {
				s.run(mutate(c, k, s.corpus));
			}
		}
	}
	c.evals += s.execs;
	c.stat["guided_executions"] += s.execs;
	c.stat["guided_edges"] += s.edges;
	c.stat["guided_inputs"] += s.corpus.size();
	return s.corpus;
}

void neighbours(Ctx &c, const Case &k, const Judge &j)
{
	int f = fmt_of(k.kind), n = TYPES[type_of(k)].n;
	j(c, k);
	for (int d = -1; d <= 1; d += 2) {
		Case x = k;
		if (f >= 0) {
			long double inf = d * (long double)INFINITY;
			x.f = f == 0 ? (long double)nextafterf((float)k.f, (float)inf) : f == 1 ? (long double)nextafter((double)k.f, (double)inf) :
									     nextafterl(k.f, inf);
			j(c, x);
			continue;
		}
		x.a = sx(n, (uint64_t)k.a + (uint64_t)(int64_t)d);
		j(c, x);
		if (k.kind == K_BINARY || k.kind == K_INT) {
			x = k;
			x.b = k.kind == K_INT ? (int64_t)((uint64_t)k.b + (uint64_t)(int64_t)d) : sx(n, (uint64_t)k.b + (uint64_t)(int64_t)d);
			j(c, x);
		}
	}
	if (f < 0) { /* stay in the same branch, vary the rest */
		for (int i = 0; i < 3; i++) {
			Case x = k;
			x.a = sx(n, (uint64_t)k.a ^ (1ULL << c.rng.below((uint64_t)n)));
			j(c, x);
			if (k.kind == K_BINARY) {
				x = k;
				x.b = sx(n, (uint64_t)k.b ^ (1ULL << c.rng.below((uint64_t)n)));
				j(c, x);
			}
		}
	}
}

void guided_jobs(std::vector<Job> &jobs, const std::vector<Callee> &cs, const Judge &j, uint64_t execs)
{
	if (!have_cov()) {
		return;
	}
	for (auto &ce : cs) {
		jobs.push_back({"guided/" + callee_name(ce), [=](Ctx &c) {
			for (auto &k : evolve(c, ce, scaled(execs))) {
				neighbours(c, k, j);
			}
		}});
	}
}

std::vector<Callee> callees_of(int kind, const std::vector<int> &fns, const std::vector<int> &types)
{
	std::vector<Callee> v;
	for (auto &ce : callees()) {
		if (ce.kind == kind && (fns.empty() || std::find(fns.begin(), fns.end(), ce.fn) != fns.end()) &&
		    (types.empty() || std::find(types.begin(), types.end(), ce.type) != types.end())) {
			v.push_back(ce);
		}
	}
	return v;
}
