/* P18 (no undefined behaviour), P19 (pure functions), P20 (all builds agree) */
#include "guided.h"
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <alloca.h>
#include <fenv.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

/* ---- P18 -------------------------------------------------------------
 * The library below is a sanitizer build; a report is attributed to the call
 * in progress.  AddressSanitizer reports abort and are seen as a crash.
 */
extern "C" {
void __ubsan_get_current_report_data(const char **kind, const char **msg, const char **file,
				     unsigned *line, unsigned *col, char **addr) __attribute__((weak));
void __ubsan_on_report(void);
void __ubsan_on_report(void)
{
	const char *kind = "?", *msg = "?", *file = "?";
	unsigned line = 0, col = 0;
	char *addr = nullptr;
	if (__ubsan_get_current_report_data) {
		__ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
	}
	if (g_ctx) {
		const char *base = strrchr(file, '/');
		base = base ? base + 1 : file;
		g_ctx->fail("ubsan|" + fnname(*g_ctx->cur),
			    std::string(kind) + " at " + base + ":" + std::to_string(line) +
			    " (" + msg + ") during " + case_str(*g_ctx->cur));
	}
}
}

static void watch(Ctx &c, const Case &k)
{
	*c.cur = k;
	c.evals++;
	if (!(c.evals & 63)) {
		c.tick();
	}
	(void)call_bits(TYPES, k);
	c.checks++;
}
static uint64_t case_hash(const Case &k)
{
	uint64_t m, e = 0;
	memcpy(&m, &k.f, 8);
	memcpy(&e, (const char *)&k.f + 8, 2);
	return h64(h64(h64((uint64_t)(k.kind * 4096 + k.fn * 64 + k.type * 8 + k.src), (uint64_t)k.a),
		       (uint64_t)k.b), m ^ (e << 40));
}

PROPERTY(P18)
{
	for (auto &ce : callees()) {
		std::string nm = callee_name(ce);
		jobs.push_back({nm, [=](Ctx &c) {
			std::vector<Case> v;
			structured_calls(v, ce);
			for (auto &k : v) {
				watch(c, k);
				c.distinct(case_hash(k));
			}
			Case p;
			for (uint64_t i = 0; i < scaled(6000); i++) {
				Case k = draw_call(c.rng, ce, i ? &p : nullptr);
				watch(c, k);
				c.distinct(case_hash(k));
				if (c.rng.below(100000) == 0) {
					c.note(case_str(k) + " ran without a report");
				}
				p = k;
			}
		}});
	}
	guided_jobs(jobs, callees(), [](Ctx &c, const Case &k) {
		watch(c, k);
		c.distinct(case_hash(k));
	}, 12000);
}

/* ---- P19 -------------------------------------------------------------
 * The worker itself never enters the library: every phase is a fresh child,
 * so "first call of the process" is exercised over and over.
 */
struct Arena {
	volatile uint32_t calls, note_kind;
	volatile uint64_t note_at, note_val;
	volatile int surroundings, effect;
	Bits out[1];
};
static const size_t MAXL = 1 << 16;
static Arena *new_arena()
{
	void *p = mmap(nullptr, sizeof(Arena) + MAXL * sizeof(Bits), PROT_READ | PROT_WRITE,
		       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return p == MAP_FAILED ? nullptr : (Arena *)p;
}

struct FpEnv {
	uint32_t mxcsr;
	uint16_t cw;
	int round;
};
static FpEnv fpenv()
{
	FpEnv e;
	asm volatile("stmxcsr %0" : "=m"(e.mxcsr));
	asm volatile("fnstcw %0" : "=m"(e.cw));
	e.mxcsr &= 0xffc0;
	e.round = fegetround();
	return e;
}

static void __attribute__((noinline)) paint(uint8_t v)
{
	volatile uint8_t buf[8192];
	for (size_t i = 0; i < sizeof buf; i++) {
		buf[i] = v;
	}
}

/* run f in a fresh process; 0 when it finished */
static int in_child(Ctx &c, const std::function<void()> &f)
{
	int st;
	c.tick();
	fflush(nullptr);
	pid_t p = fork();
	if (p < 0) {
		return -1;
	}
	if (p == 0) {
		alarm(600);
		f();
		_exit(0);
	}
	if (waitpid(p, &st, 0) != p) {
		return -1;
	}
	return st;
}

/* ---- what the library asks of its surroundings (P19) --------------------
 * In the library linked for P19 calls of these names are redirected here
 * (objcopy --redefine-sym, run.py).  The first kind answers differently from
 * phase to phase, so that a result taken from it shows; the second kind is
 * only recorded: a pure function has no use for it.
 */
static volatile int *g_surroundings; /* shared: 0 or the variation in force */
static volatile int *g_effect;       /* shared: index of a recorded call + 1 */
static long vary(long a) { return g_surroundings && *g_surroundings ? *g_surroundings * 7919 + a : a; }
extern "C" {
#define MON_SOURCE_HOOK(R, N, ARGS, V) R mon_##N ARGS; R mon_##N ARGS { return V; }
static char mon_one[] = "1";
MON_SOURCE_HOOK(char *, getenv, (const char *), vary(0) ? mon_one : nullptr)
MON_SOURCE_HOOK(char *, secure_getenv, (const char *), vary(0) ? mon_one : nullptr)
MON_SOURCE_HOOK(char *, __secure_getenv, (const char *), vary(0) ? mon_one : nullptr)
MON_SOURCE_HOOK(long, time, (long *p), ((p ? (void)(*p = vary(1700000000)) : (void)0), vary(1700000000)))
MON_SOURCE_HOOK(long, clock, (void), vary(1000))
MON_SOURCE_HOOK(int, clock_gettime, (int, long *p), (p[0] = vary(1700000000), p[1] = vary(5), 0))
MON_SOURCE_HOOK(int, gettimeofday, (long *p, void *), (p[0] = vary(1700000000), p[1] = vary(5), 0))
MON_SOURCE_HOOK(int, timespec_get, (long *p, int b), (p[0] = vary(1700000000), p[1] = vary(5), b))
MON_SOURCE_HOOK(int, rand, (void), (int)vary(1))
MON_SOURCE_HOOK(long, random, (void), vary(1))
MON_SOURCE_HOOK(long, lrand48, (void), vary(1))
MON_SOURCE_HOOK(double, drand48, (void), vary(0) ? 0.75 : 0.25)
MON_SOURCE_HOOK(int, getpid, (void), (int)vary(100))
MON_SOURCE_HOOK(int, getppid, (void), (int)vary(99))
MON_SOURCE_HOOK(int, gettid, (void), (int)vary(100))
MON_SOURCE_HOOK(int, getuid, (void), (int)vary(0))
MON_SOURCE_HOOK(int, geteuid, (void), (int)vary(0))
MON_SOURCE_HOOK(int, sched_getcpu, (void), (int)vary(0) & 7)
MON_SOURCE_HOOK(int, isatty, (int), vary(0) ? 1 : 0)
MON_SOURCE_HOOK(int, access, (const char *, int), vary(0) ? 0 : -1)
MON_SOURCE_HOOK(long, sysconf, (int), vary(4) & 255)
MON_SOURCE_HOOK(int, get_nprocs, (void), (int)vary(1) & 63)

#define MON_EFFECT_HOOKS(X)                                                    \
	X(printf, 0) X(__printf_chk, 0) X(fprintf, 0) X(__fprintf_chk, 0)      \
	X(vfprintf, 0) X(__vfprintf_chk, 0) X(puts, 0) X(fputs, 0)             \
	X(putchar, 0) X(fputc, 0) X(putc, 0) X(fwrite, 0) X(perror, 0)         \
	X(fflush, 0) X(write, -1) X(dprintf, -1) X(__dprintf_chk, -1)          \
	X(syslog, 0) X(fopen, 0) X(fopen64, 0) X(open, -1) X(open64, -1)       \
	X(openat, -1) X(creat, -1) X(unlink, -1) X(remove, -1) X(rename, -1)   \
	X(mkdir, -1) X(socket, -1) X(pipe, -1) X(dup, -1) X(dup2, -1)          \
	X(system, -1) X(popen, 0) X(fork, -1) X(kill, -1) X(raise, -1)         \
	X(signal, -1) X(sigaction, -1) X(sigprocmask, -1)                      \
	X(pthread_sigmask, 1) X(setlocale, 0) X(setenv, -1) X(putenv, -1)      \
	X(unsetenv, -1) X(srand, 0) X(srandom, 0) X(srand48, 0) X(alarm, 0)    \
	X(sleep, 0) X(usleep, -1) X(nanosleep, -1) X(chdir, -1) X(umask, 0)    \
	X(pthread_create, 11)
enum { EFFECT_NONE
#define X(N, V) , EFFECT_##N
MON_EFFECT_HOOKS(X)
#undef X
};
static const char *const effect_names[] = { ""
#define X(N, V) , #N
MON_EFFECT_HOOKS(X)
#undef X
};
#define X(N, V) long mon_##N(void); long mon_##N(void) { if (g_effect) *g_effect = EFFECT_##N; return V; }
MON_EFFECT_HOOKS(X)
#undef X
}

static Bits __attribute__((noinline)) shifted_call(size_t shift, const Case &k)
{
	volatile char *p = (volatile char *)alloca(shift);
	p[0] = (char)shift;
	return call_bits(TYPES, k);
}

static const int NT = 6;
struct ThreadArg {
	const std::vector<Case> *v;
	const Bits *ref;
	pthread_barrier_t *bar;
	int id, reps;
	Arena *ar;
};
static void *thread_main(void *p)
{
	ThreadArg &a = *(ThreadArg *)p;
	size_t n = a.v->size();
	pthread_barrier_wait(a.bar);
	for (int r = 0; r < a.reps; r++) {
		/* half of the threads walk the list in step, half do not */
		size_t off = a.id & 1 ? 0 : n * (size_t)a.id / NT + (size_t)r * 7;
		for (size_t i = 0; i < n; i++) {
			size_t j = (i + off) % n;
			Bits b = call_bits(TYPES, (*a.v)[j]);
			if (b != a.ref[j]) {
				a.ar->note_at = j;
				a.ar->note_val = b.lo;
				a.ar->note_kind = 1;
				return nullptr;
			}
		}
	}
	return nullptr;
}

static std::string lhex(const Bits &b)
{
	char s[64];
	snprintf(s, sizeof s, "%lld/0x%llx", (long long)b.lo, (unsigned long long)b.hi);
	return s;
}

#if defined(__SANITIZE_THREAD__)
#define MON_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#endif
static const char *tsan_log; /* set by the runner for the ThreadSanitizer build */

static void purity(Ctx &c, const std::vector<Case> &v, const std::string &nm, bool races_only, uint64_t soak = 0)
{
	static Arena *ref, *got;
	size_t n = v.size();
	if (!ref) {
		ref = new_arena();
		got = new_arena();
		if (!ref || !got) {
			_exit(97);
		}
		g_surroundings = &ref->surroundings;
		g_effect = &ref->effect;
	}
	ref->surroundings = 0;
	ref->effect = 0;
	auto child = [&](const char *phase, const std::function<void()> &f) {
		got->calls = 0;
		got->note_kind = 0;
		int st = in_child(c, f);
		c.stat[std::string("phase.") + phase]++;
		if (st == -1) {
			_exit(97);
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 66) {
			c.fail("race|" + nm, std::string("ThreadSanitizer reports a data race while threads call ") +
			       nm + (n ? ", e.g. " + case_str(v[0]) : ""));
			return false;
		}
		if (st != 0) {
			c.fail("crash|" + nm, std::string(phase) + " ended with status " + std::to_string(st));
			return false;
		}
		if (ref->effect) {
			c.fail("footprint|" + nm, nm + " calls " + effect_names[ref->effect] + "()");
			ref->effect = 0;
		}
		return true;
	};
	auto compare = [&](const char *phase, const char *key) {
		for (size_t i = 0; i < n; i++) {
			c.checks++;
			if (got->out[i] != ref->out[i]) {
				c.fail(std::string(key) + "|" + fnname(v[i]), case_str(v[i]) + " gave " + lhex(ref->out[i]) +
				       " in list order, " + lhex(got->out[i]) + " " + phase);
				break;
			}
		}
	};

	if (!child("reference", [&] {
		for (size_t i = 0; i < n; i++) {
			ref->out[i] = call_bits(TYPES, v[i]);
		}
	})) {
		return;
	}
	c.evals += n;
	for (auto &k : v) {
		c.distinct(case_hash(k));
	}
	if (!races_only) {
		/* backwards, each call twice, on a painted stack, watching the
		 * floating-point environment */
		FpEnv *e = (FpEnv *)&got->out[n + 8];
		if (child("reverse", [&] {
			FpEnv e0 = fpenv();
			for (size_t i = n; i-- > 0;) {
				paint((uint8_t)(i * 37));
				Bits b = call_bits(TYPES, v[i]);
				FpEnv e1 = fpenv();
				if (e1.mxcsr != e0.mxcsr || e1.cw != e0.cw || e1.round != e0.round) {
					got->note_kind = 2;
					got->note_at = i;
					*e = e1;
					fesetenv(FE_DFL_ENV);
				}
				paint((uint8_t)~(i * 37));
				got->out[i] = call_bits(TYPES, v[i]);
				if (b != got->out[i]) {
					got->note_kind = 3;
					got->note_at = i;
				}
			}
		})) {
			compare("in reverse order", "history");
			if (got->note_kind == 2) {
				c.fail("fpenv|" + fnname(v[got->note_at]), case_str(v[got->note_at]) +
				       " changes the floating-point control state");
			} else if (got->note_kind == 3) {
				c.fail("repeat|" + fnname(v[got->note_at]), case_str(v[got->note_at]) +
				       " gives two different results when called twice in a row");
			}
			c.evals += 2 * n;
			c.checks += 2 * n;
		}
		/* shuffled, other calls in between, errno and exception flags set */
		std::vector<uint32_t> ord(n);
		for (size_t i = 0; i < n; i++) {
			ord[i] = (uint32_t)i;
		}
		for (size_t i = n; i > 1; i--) {
			std::swap(ord[i - 1], ord[c.rng.below(i)]);
		}
		std::vector<Case> other;
		for (int i = 0; i < 64; i++) {
			auto &ce = callees()[c.rng.below(callees().size())];
			other.push_back(draw_call(c.rng, ce, i ? &other.back() : nullptr));
		}
		if (child("shuffle", [&] {
			for (size_t k = 0; k < n; k++) {
				size_t i = ord[k];
				if (k % 3 == 0) {
					(void)call_bits(TYPES, other[(k / 3) % 64]);
				}
				errno = (int)(k & 63);
				if (k & 4) {
					feraiseexcept(FE_ALL_EXCEPT);
				} else {
					feclearexcept(FE_ALL_EXCEPT);
				}
				got->out[i] = call_bits(TYPES, v[i]);
			}
		})) {
			compare("in shuffled order among other calls", "history");
			c.evals += n + n / 3;
		}
		/* another environment, clock, process, random state and stack */
		if (child("surroundings", [&] {
			ref->surroundings = 1 + (int)(n % 5);
			setenv("LC_ALL", "C.UTF-8", 1);
			setlocale(LC_ALL, "C.UTF-8");
			srand((unsigned)n);
			for (size_t i = 0; i < n; i++) {
				got->out[i] = shifted_call(16 + (i * 2654435761u >> 20 & 4080), v[i]);
				if (!(i & 15)) {
					ref->surroundings++;
				}
			}
		})) {
			compare("in another environment", "surroundings");
			c.evals += n;
		}
		ref->surroundings = 0;
		/* silent: no output, no descriptors, no heap growth */
		if (child("footprint", [&] {
			int fd = open("/dev/null", O_RDONLY);
			char path[64];
			snprintf(path, sizeof path, "%s/io.%d", opt.workdir.c_str(), (int)getpid());
			int o = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
			dup2(o, 1);
			dup2(o, 2);
			unlink(path);
			for (size_t i = 0; i < n; i++) {
				(void)call_bits(TYPES, v[i]);
			}
			size_t before = mallinfo2().uordblks;
			for (size_t i = 0; i < n; i++) {
				(void)call_bits(TYPES, v[i]);
			}
			size_t after = mallinfo2().uordblks;
			fflush(nullptr);
			struct stat s;
			int fd2 = open("/dev/null", O_RDONLY);
			if (fstat(o, &s) == 0 && s.st_size > 0) {
				got->note_kind = 4;
			} else if (fd2 != o + 1 && o == fd + 1) {
				got->note_kind = 5;
			} else if (after > before) {
				got->note_kind = 6;
			}
		})) {
			static const char *const w[] = {"writes output", "leaks a descriptor", "grows the heap on every call"};
			if (got->note_kind >= 4) {
				c.fail("footprint|" + nm, nm + " " + w[got->note_kind - 4]);
			}
			c.evals += n * 2;
		}
		/* the very first call of a process */
		for (int s = 0; s < 8 && n; s++) {
			size_t i = s ? c.rng.below(n) : n - 1;
			if (child("first_call", [&] { got->out[0] = call_bits(TYPES, v[i]); })) {
				c.evals++;
				c.checks++;
				if (got->out[0] != ref->out[i]) {
					c.fail("history|" + fnname(v[i]), case_str(v[i]) + " gave " + lhex(ref->out[i]) +
					       " after other calls, " + lhex(got->out[0]) + " as first call");
				}
			}
		}
	}
	/* a long history of the same few calls (counters wrap, caches warm up) */
	if (!races_only && soak) {
		if (child("soak", [&] {
			size_t m = std::min<size_t>(n, 7);
			for (uint64_t k = 0; k < soak; k++) {
				size_t i = k % m;
				if (call_bits(TYPES, v[i]) != ref->out[i]) {
					got->note_kind = 7;
					got->note_at = i;
					got->note_val = k;
					break;
				}
			}
		})) {
			c.evals += soak;
			c.checks += soak;
			c.stat["soak_calls"] += soak;
			if (got->note_kind == 7) {
				c.fail("history|" + fnname(v[got->note_at]), case_str(v[got->note_at]) +
				       " changes its result after " + std::to_string((unsigned long long)got->note_val) +
				       " calls of the function");
			}
		}
	}
	/* threads */
	int reps = 2;
	if (child("threads", [&] {
		pthread_barrier_t bar;
		pthread_t th[NT];
		ThreadArg a[NT];
		pthread_barrier_init(&bar, nullptr, NT);
		for (int i = 0; i < NT; i++) {
			a[i] = {&v, ref->out, &bar, i, reps, got};
			if (pthread_create(&th[i], nullptr, thread_main, &a[i])) {
				_exit(97);
			}
		}
		for (int i = 0; i < NT; i++) {
			pthread_join(th[i], nullptr);
		}
		if (races_only) {
			exit(0); /* lets ThreadSanitizer set the exit code */
		}
	})) {
		c.evals += (uint64_t)NT * (uint64_t)reps * n;
		c.checks += (uint64_t)NT * (uint64_t)reps * n;
		c.stat["concurrent_calls"] += (uint64_t)NT * (uint64_t)reps * n;
		if (got->note_kind == 1) {
			size_t j = got->note_at;
			c.fail("threads|" + fnname(v[j]), case_str(v[j]) + " gave " + lhex(ref->out[j]) +
			       " alone, " + std::to_string((long long)got->note_val) + " beside other threads");
		}
	}
}

static void purity_jobs(std::vector<Job> &jobs, bool races_only)
{
	(void)tsan_log;
	for (auto &ce : callees()) {
		std::string nm = callee_name(ce);
		jobs.push_back({nm, [=](Ctx &c) {
			std::vector<Case> v;
			size_t n = std::min<size_t>(scaled(races_only ? 40 : 500), 20000);
			for (size_t i = 0; i < n; i++) {
				v.push_back(draw_call(c.rng, ce, i ? &v.back() : nullptr));
			}
			if (!races_only) {
				/* plus a sample of the structured operands */
				std::vector<Case> st;
				structured_calls(st, ce);
				size_t keep = std::min<size_t>(st.size(), n);
				for (size_t i = 0; i < keep; i++) {
					v.push_back(st[c.rng.below(st.size())]);
				}
			}
			if (!races_only && have_cov()) {
				for (auto &k : evolve(c, ce, scaled(1000))) {
					if (v.size() < 30000) v.push_back(k);
				}
			}
			purity(c, v, nm, races_only, 250000 + scaled(5000));
			if (!v.empty() && c.rng.below(40) == 0) {
				c.note(nm + ": " + std::to_string(v.size()) + " calls agree over every order, process and thread, e.g. " +
				       case_str(v[v.size() / 2]));
			}
		}});
	}
	/* calls of several functions, then of everything */
	size_t nc = callees().size();
	for (uint64_t m = 0; m < scaled(120); m++) {
		jobs.push_back({"mix" + std::to_string(m), [=](Ctx &c) {
			std::vector<Case> v;
			size_t n = races_only ? 300 : 2000, width = 1 + c.rng.below(12);
			std::vector<Callee> set;
			size_t base = c.rng.below(nc);
			for (size_t i = 0; i < width; i++) {
				/* neighbours, siblings in other types, anything */
				switch (c.rng.below(3)) {
				case 0: set.push_back(callees()[(base + i) % nc]); break;
				case 1: set.push_back(callees()[(base + i * (nc / NUM_TYPES)) % nc]); break;
				default: set.push_back(callees()[c.rng.below(nc)]);
				}
			}
			for (size_t i = 0; i < n; i++) {
				const Callee &ce = m % 4 == 3 ? callees()[c.rng.below(nc)] : set[c.rng.below(width)];
				Case k = draw_call(c.rng, ce, i ? &v.back() : nullptr);
				/* the same bits handed to another function */
				if (i && c.rng.chance(1, 4) && k.kind < K_FROM32 && v.back().kind < K_FROM32) {
					k.a = sx(TYPES[k.kind == K_CONV ? k.src : k.type].n, (uint64_t)v.back().a);
				}
				v.push_back(k);
			}
			purity(c, v, "mixed calls", races_only);
		}});
	}
}
PROPERTY(P19) { purity_jobs(jobs, false); }
PROPERTY(P19T) { purity_jobs(jobs, true); }

/* ---- P20 ------------------------------------------------------------- */
struct Build {
	std::string name;
	const Type *tab;
	const Constant *con;
};
static const std::vector<Build> &builds()
{
	static std::vector<Build> b;
	if (b.empty()) {
		for (auto &l : opt.libs) {
			void *h = dlopen(l.c_str(), RTLD_NOW | RTLD_LOCAL);
			const Type *t = h ? (const Type *)dlsym(h, "TYPES") : nullptr;
			const Constant *k = h ? (const Constant *)dlsym(h, "CONSTANTS") : nullptr;
			if (!t || !k) {
				fprintf(stderr, "dlopen %s: %s\n", l.c_str(), dlerror());
				exit(96);
			}
			size_t s = l.rfind('/');
			b.push_back({l.substr(s == std::string::npos ? 0 : s + 1), t, k});
		}
	}
	return b;
}
static void agree(Ctx &c, const Case &k)
{
	watch(c, k);
	Bits ref = call_bits(TYPES, k);
	for (auto &b : builds()) {
		Bits o = call_bits(b.tab, k);
		c.evals++;
		c.checks++;
		if (o != ref) {
			c.fail("build|" + fnname(k) + "|" + b.name, case_str(k) + " gives " + lhex(ref) + " in the reference build, " +
			       lhex(o) + " in " + b.name);
		}
	}
	c.distinct(case_hash(k));
}
PROPERTY(P20)
{
	builds();
	jobs.push_back({"constants", [=](Ctx &c) {
		for (auto &b : builds()) {
			for (size_t i = 0; i < NUM_CONSTANTS; i++) {
				c.checks++;
				if (b.con[i].value != CONSTANTS[i].value) {
					c.fail(std::string("build|constant|") + b.name, std::string(CONSTANTS[i].name) + " differs in " + b.name);
				}
			}
		}
	}});
	for (auto &ce : callees()) {
		std::string nm = callee_name(ce);
		jobs.push_back({nm, [=](Ctx &c) {
			std::vector<Case> v;
			structured_calls(v, ce);
			size_t keep = (size_t)scaled(2500), m = v.size();
			for (size_t i = 0; i < m && i < keep; i++) {
				agree(c, m > keep ? v[c.rng.below(m)] : v[i]);
			}
			Case p;
			for (uint64_t i = 0; i < scaled(2500); i++) {
				Case k = draw_call(c.rng, ce, i ? &p : nullptr);
				agree(c, k);
				p = k;
			}
			c.note(case_str(p) + " = " + lhex(call_bits(TYPES, p)) + " in " + std::to_string(1 + builds().size()) + " builds");
		}});
	}
	guided_jobs(jobs, callees(), [](Ctx &c, const Case &k) { agree(c, k); }, 6000);
}
