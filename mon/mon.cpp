/* driver: job scheduling over forked workers, crash/hang capture, evidence */
#include "mon.h"
#include <algorithm>
#include <errno.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

Options opt;
bool thorough() { return opt.tier == "thorough"; }
uint64_t scaled(uint64_t n)
{
	double x = (double)n * opt.scale * (thorough() ? 20 : 1);
	return x < 1 ? 1 : (uint64_t)x;
}

Ctx *g_ctx;

static const uint64_t BITMAP_BITS = 1ULL << 30;
static const int MAXW = 64;

struct Shared {
	std::atomic<uint64_t> next;
	struct {
		std::atomic<uint64_t> evals;
		Case cur;
		std::atomic<uint64_t> job;
		char pad[64];
	} w[MAXW];
};
static uint64_t ticks;
static Shared *sh;
static uint8_t *bitmap;

static std::vector<PropEntry> &props()
{
	static std::vector<PropEntry> p;
	return p;
}
RegisterProp::RegisterProp(const char *id, prop_fn f) { props().push_back({id, f}); }

static std::string jesc(const std::string &s)
{
	std::string o;
	for (char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if ((unsigned char)c < 32) {
			o += ' ';
		} else {
			o += c;
		}
	}
	return o;
}

std::string fnname(const Case &c)
{
	std::string t = c.type >= 0 && c.type < NUM_TYPES ? TYPES[c.type].name : "?";
	switch (c.kind) {
	case K_UNARY: return t + "_" + UNARY_NAMES[c.fn];
	case K_BINARY: return t + "_" + BINARY_NAMES[c.fn];
	case K_INT: return t + "_" + INT_NAMES[c.fn];
	case K_TO32: return t + "_to_float32";
	case K_TO64: return t + "_to_float64";
	case K_TOEXT: return t + "_to_extended_float";
	case K_FROM32: return t + "_from_float32";
	case K_FROM64: return t + "_from_float64";
	case K_FROMEXT: return t + "_from_extended_float";
	case K_CONV: return t + "_from_" + TYPES[c.src].name;
	case K_PREC: return t + "_precision";
	}
	return "none";
}

#define ENTER(K, FN, T, S, A, BB, F)                                           \
	do {                                                                   \
		cur->kind = K;                                                 \
		cur->fn = FN;                                                  \
		cur->type = T;                                                 \
		cur->src = S;                                                  \
		cur->a = A;                                                    \
		cur->b = BB;                                                   \
		cur->f = F;                                                    \
		evals++;                                                       \
		if (!(evals & 63)) {                                           \
			sh->w[worker].evals.store(evals,                       \
						  std::memory_order_relaxed);  \
		}                                                              \
	} while (0)

void Ctx::tick() { sh->w[worker].evals.store(++ticks + evals, std::memory_order_relaxed); }
int64_t Ctx::U(int fn, int t, int64_t a)
{
	ENTER(K_UNARY, fn, t, 0, a, 0, 0);
	return TYPES[t].un[fn](a);
}
int64_t Ctx::B(int fn, int t, int64_t a, int64_t b)
{
	ENTER(K_BINARY, fn, t, 0, a, b, 0);
	return TYPES[t].bin[fn](a, b);
}
int64_t Ctx::I(int fn, int t, int64_t a, int64_t n)
{
	ENTER(K_INT, fn, t, 0, a, n, 0);
	return TYPES[t].ipow[fn](a, n);
}
int Ctx::P(int t, int64_t a)
{
	ENTER(K_PREC, 0, t, 0, a, 0, 0);
	return TYPES[t].precision(a);
}
float Ctx::to32(int t, int64_t a)
{
	ENTER(K_TO32, 0, t, 0, a, 0, 0);
	return TYPES[t].to_f32(a);
}
double Ctx::to64(int t, int64_t a)
{
	ENTER(K_TO64, 0, t, 0, a, 0, 0);
	return TYPES[t].to_f64(a);
}
long double Ctx::toext(int t, int64_t a)
{
	ENTER(K_TOEXT, 0, t, 0, a, 0, 0);
	return TYPES[t].to_ext(a);
}
int64_t Ctx::from32(int t, float f)
{
	ENTER(K_FROM32, 0, t, 0, 0, 0, f);
	return TYPES[t].from_f32(f);
}
int64_t Ctx::from64(int t, double f)
{
	ENTER(K_FROM64, 0, t, 0, 0, 0, f);
	return TYPES[t].from_f64(f);
}
int64_t Ctx::fromext(int t, long double f)
{
	ENTER(K_FROMEXT, 0, t, 0, 0, 0, f);
	return TYPES[t].from_ext(f);
}
int64_t Ctx::conv(int to, int from, int64_t a)
{
	ENTER(K_CONV, 0, to, from, a, 0, 0);
	return TYPES[to].from_type[from](a);
}

void Ctx::distinct(uint64_t h)
{
	h = h64(h, 0x51ed) & (BITMAP_BITS - 1);
	uint8_t m = (uint8_t)(1u << (h & 7));
	uint8_t *p = &bitmap[h >> 3];
	if (!(*p & m)) {
		__atomic_fetch_or(p, m, __ATOMIC_RELAXED);
	}
}
void Ctx::note(const std::string &s)
{
	if (samples.size() < 40) {
		samples.push_back(s);
	}
}
void Ctx::max_of(const std::string &k, double v, const std::string &wit)
{
	auto it = maxi.find(k);
	if (it == maxi.end() || v > it->second) {
		maxi[k] = v;
		maxwit[k] = wit;
	}
}
void Ctx::fail(const std::string &key, const std::string &detail, const char *kf)
{
	bool known = kf && opt.known.count(kf);
	std::string k = (known ? std::string("K:") + kf + ":" : std::string("V:")) + key;
	uint64_t n = ++keyn[k];
	known ? kfails++ : fails++;
	if (n <= 4) {
		fprintf(log, "{\"known\": %s, \"key\": \"%s\", \"job\": \"%s\", \"detail\": \"%s\"}\n",
			known ? (std::string("\"") + kf + "\"").c_str() : "null",
			jesc(key).c_str(), jesc(job).c_str(), jesc(detail).c_str());
		fflush(log);
	}
}
/* 0..15: DR of positives, 16..31: of negatives, 32 zero, 33 NaR */
void Ctx::in_regime(int t, int64_t a, bool out)
{
	const Type &T = TYPES[t];
	int k = a == T.nar ? 33 : a == 0 ? 32 :
		(a < 0 ? 16 : 0) + (int)(((uint64_t)a >> (T.n - 5)) & 15);
	reg[t][out][k]++;
}

/* ---- worker --------------------------------------------------------- */

static void put_map(FILE *f, const char *name, const std::map<std::string, uint64_t> &m)
{
	fprintf(f, "\"%s\": {", name);
	bool first = true;
	for (auto &e : m) {
		fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(e.first).c_str(),
			(unsigned long long)e.second);
		first = false;
	}
	fprintf(f, "}");
}

extern "C" void __gcov_dump(void) __attribute__((weak));

static void worker_main(int w, const std::vector<Job> &jobs)
{
	char path[4096];
	Ctx c;
	c.worker = w;
	g_ctx = &c;
	c.cur = &sh->w[w].cur;
	memset(c.reg, 0, sizeof c.reg);
	c.evals = c.checks = c.fails = c.kfails = 0;
	snprintf(path, sizeof path, "%s/log.%d", opt.workdir.c_str(), w);
	c.log = fopen(path, "a");
	if (!c.log) {
		_exit(97);
	}
	for (;;) {
		uint64_t j = sh->next.fetch_add(1);
		if (j >= jobs.size()) {
			break;
		}
		uint64_t s = opt.seed * 0x9e3779b97f4a7c15ULL + 12345;
		for (char ch : jobs[j].name) {
			s = h64(s, (uint8_t)ch);
		}
		c.rng = Rng(s);
		c.job = jobs[j].name;
		sh->w[w].job = j;
		size_t before = c.samples.size();
		c.samples.reserve(before + 64);
		jobs[j].run(c);
		c.stat["jobs"]++;
	}
	snprintf(path, sizeof path, "%s/sum.%d", opt.workdir.c_str(), w);
	FILE *f = fopen(path, "w");
	if (!f) {
		_exit(97);
	}
	fprintf(f, "{\"evals\": %llu, \"checks\": %llu, \"fails\": %llu, \"kfails\": %llu, ",
		(unsigned long long)c.evals, (unsigned long long)c.checks,
		(unsigned long long)c.fails, (unsigned long long)c.kfails);
	put_map(f, "stat", c.stat);
	fprintf(f, ", ");
	put_map(f, "keys", c.keyn);
	fprintf(f, ", \"max\": {");
	bool first = true;
	for (auto &e : c.maxi) {
		fprintf(f, "%s\"%s\": [%.6g, \"%s\"]", first ? "" : ", ",
			jesc(e.first).c_str(), e.second, jesc(c.maxwit[e.first]).c_str());
		first = false;
	}
	fprintf(f, "}, \"regimes\": [");
	for (int t = 0; t < NUM_TYPES; t++) {
		for (int d = 0; d < 2; d++) {
			for (int k = 0; k < 34; k++) {
				fprintf(f, "%s%llu", t || d || k ? ", " : "",
					(unsigned long long)c.reg[t][d][k]);
			}
		}
	}
	fprintf(f, "], \"samples\": [");
	first = true;
	for (auto &e : c.samples) {
		fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(e).c_str());
		first = false;
	}
	fprintf(f, "]}\n");
	fclose(f);
	fclose(c.log);
	if (__gcov_dump) {
		__gcov_dump();
	}
	_exit(0);
}

std::string case_str(const Case &c)
{
	char b[256];
	snprintf(b, sizeof b, "%s a=%lld b=%lld f=%La", fnname(c).c_str(),
		 (long long)c.a, (long long)c.b, c.f);
	return b;
}

static void call_case(const Case &c)
{
	const Type &T = TYPES[c.type];
	switch (c.kind) {
	case K_UNARY: (void)T.un[c.fn](c.a); break;
	case K_BINARY: (void)T.bin[c.fn](c.a, c.b); break;
	case K_INT: (void)T.ipow[c.fn](c.a, c.b); break;
	case K_TO32: (void)T.to_f32(c.a); break;
	case K_TO64: (void)T.to_f64(c.a); break;
	case K_TOEXT: (void)T.to_ext(c.a); break;
	case K_FROM32: (void)T.from_f32((float)c.f); break;
	case K_FROM64: (void)T.from_f64((double)c.f); break;
	case K_FROMEXT: (void)T.from_ext(c.f); break;
	case K_CONV: (void)T.from_type[c.src](c.a); break;
	case K_PREC: (void)T.precision(c.a); break;
	}
}

/* does this one call finish? 0 yes, 1 hangs, 2 crashes */
static int retry_case(const Case &c)
{
	pid_t p = fork();
	int st;
	if (p == 0) {
		alarm(20);
		call_case(c);
		_exit(0);
	}
	if (p < 0 || waitpid(p, &st, 0) != p) {
		return 0;
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		return 0;
	}
	return WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? 1 : 2;
}

int main(int argc, char **argv)
{
	opt.tier = "quick";
	opt.seed = 1;
	opt.workers = 8;
	opt.scale = 1;
	std::string only;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--prop") opt.prop = v;
		else if (k == "--tier") opt.tier = v;
		else if (k == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
		else if (k == "--workers") opt.workers = atoi(v.c_str());
		else if (k == "--workdir") opt.workdir = v;
		else if (k == "--dict") opt.dict = v;
		else if (k == "--scale") opt.scale = atof(v.c_str());
		else if (k == "--job") only = v;
		else if (k == "--cov") opt.cov = v;
		else if (k == "--libs") {
			size_t p = 0;
			while (p < v.size()) {
				size_t q = v.find(',', p);
				if (q == std::string::npos) q = v.size();
				opt.libs.push_back(v.substr(p, q - p));
				p = q + 1;
			}
		}
		else if (k == "--known") {
			size_t p = 0;
			while (p < v.size()) {
				size_t q = v.find(',', p);
				if (q == std::string::npos) q = v.size();
				opt.known.insert(v.substr(p, q - p));
				p = q + 1;
			}
		} else {
			fprintf(stderr, "bad option %s\n", k.c_str());
			return 90;
		}
	}
	opt.workers = std::min(std::max(opt.workers, 1), MAXW);

	std::vector<Job> jobs;
	bool found = false;
	for (auto &p : props()) {
		if (opt.prop == p.id) {
			p.f(jobs);
			found = true;
		}
	}
	if (!only.empty()) {
		std::vector<Job> sel;
		for (auto &j : jobs) {
			if (j.name == only) {
				sel.push_back(j);
			}
		}
		jobs = sel;
	}
	if (!found || jobs.empty()) {
		fprintf(stderr, "no such property\n");
		return 91;
	}
	for (int t = 0; t < NUM_TYPES; t++) { /* build before forking */
		corners(t);
		dictionary(t);
		specials(t);
	}

	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
			    MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	bitmap = (uint8_t *)mmap(nullptr, BITMAP_BITS / 8, PROT_READ | PROT_WRITE,
				 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || bitmap == MAP_FAILED) {
		return 92;
	}

	std::vector<pid_t> pid(opt.workers);
	std::vector<int> done(opt.workers, 0);
	std::vector<uint64_t> last(opt.workers, 0);
	std::vector<time_t> when(opt.workers, time(nullptr));
	for (int w = 0; w < opt.workers; w++) {
		pid[w] = fork();
		if (pid[w] == 0) {
			worker_main(w, jobs);
		}
		if (pid[w] < 0) {
			return 93;
		}
	}
	std::string path = opt.workdir + "/log.parent";
	FILE *log = fopen(path.c_str(), "w");
	int left = opt.workers, infra = 0, inconclusive = 0;
	std::set<std::string> hung; /* functions already seen not to return */
	while (left) {
		for (int w = 0; w < opt.workers; w++) {
			int st;
			if (done[w]) {
				continue;
			}
			pid_t r = waitpid(pid[w], &st, WNOHANG);
			if (r == pid[w]) {
				done[w] = 1;
				left--;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
					continue;
				}
				Case c = sh->w[w].cur;
				if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL &&
				    c.kind != K_NONE) {
					fprintf(log, "{\"known\": null, \"key\": \"crash|%s\", \"job\": \"%s\", \"detail\": \"signal %d during %s\"}\n",
						fnname(c).c_str(),
						jesc(jobs[sh->w[w].job].name).c_str(),
						WTERMSIG(st), case_str(c).c_str());
				} else {
					infra = 1;
					fprintf(stderr, "worker %d ended abnormally (%x)\n", w, st);
				}
				continue;
			}
			uint64_t e = sh->w[w].evals.load();
			if (e != last[w]) {
				last[w] = e;
				when[w] = time(nullptr);
			} else if (time(nullptr) - when[w] > 60) {
				Case c = sh->w[w].cur;
				kill(pid[w], SIGKILL);
				waitpid(pid[w], &st, 0);
				done[w] = 1;
				left--;
				int rr = hung.count(fnname(c)) ? 1 : retry_case(c);
				if (rr == 1) {
					hung.insert(fnname(c));
				}
				if (rr) {
					fprintf(log, "{\"known\": null, \"key\": \"%s|%s\", \"job\": \"%s\", \"detail\": \"call does not return within 20 s: %s\"}\n",
						rr == 1 ? "hang" : "crash",
						fnname(c).c_str(),
						jesc(jobs[sh->w[w].job].name).c_str(),
						case_str(c).c_str());
				} else {
					inconclusive = 1;
					fprintf(stderr, "worker %d stalled in %s, not reproduced\n", w, case_str(c).c_str());
				}
			}
		}
		usleep(20000);
	}
	fclose(log);
	uint64_t bits = 0;
	for (uint64_t i = 0; i < BITMAP_BITS / 64; i++) {
		bits += (uint64_t)__builtin_popcountll(((uint64_t *)bitmap)[i]);
	}
	path = opt.workdir + "/sum.parent";
	FILE *f = fopen(path.c_str(), "w");
	fprintf(f, "{\"distinct\": %llu, \"jobs\": %zu}\n", (unsigned long long)bits, jobs.size());
	fclose(f);
	return infra ? 94 : inconclusive ? 95 : 0;
}
