/*
 * P22: the RPN calculator of example/, driven over stdin and compared line by
 * line with a model that evaluates the same expressions through takum.h.
 */
#include "calls.h"
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

/* the C99 function, not the one that knows C23's 0b */
extern "C" long long c99_strtoll(const char *, char **, int) __asm__("strtoll");

typedef std::string Str;

/* ---- model ------------------------------------------------------------ */
static const int64_t OPAQUE = INT64_MAX; /* "not known to be an integer" */

struct Num {
	int type = 0;
	int64_t v[NUM_TYPES] = {0};
	int64_t i = 0;
};

static void fill(Num &x)
{
	for (int s = 0; s < NUM_TYPES; s++) {
		if (s != x.type) {
			x.v[s] = TYPES[s].from_type[x.type](x.v[x.type]);
		}
	}
}
static Num result_of(int t, int64_t a)
{
	const Type &T = TYPES[t];
	Num x;
	x.type = t;
	x.v[t] = a;
	x.i = OPAQUE;
	if (T.lin) {
		long double f = T.to_ext(a);
		if (f == f && f >= -0x1p63L && f < 0x1p63L && f == truncl(f)) {
			x.i = (int64_t)f;
		}
	} else {
		int64_t one = 1LL << (T.n - 2);
		if (a == 0 || a == one || a == -one) {
			x.i = a == 0 ? 0 : a > 0 ? 1 : -1;
		}
	}
	fill(x);
	return x;
}

enum OpKind { O_UN, O_BIN, O_INT, O_POW, O_PREC, O_TYPE, O_HELP };
struct Op {
	const char *id;
	OpKind kind;
	int fn;
};
static const Op OPS[] = {
#define U(N) {#N, O_UN, U_##N},
	U(arccos) U(arccos_over_pi) U(arccot) U(arccot_over_pi) U(arccsc) U(arccsc_over_pi)
	U(arcosh) U(arcoth) U(arcsch) U(arcsec) U(arcsec_over_pi) U(arcsin) U(arcsin_over_pi)
	U(arctan) U(arctan_over_pi) U(arsech) U(arsinh) U(artanh) U(cos) U(cos_pi_times)
	U(cosh) U(cot) U(cot_pi_times) U(coth) U(csc) U(csc_pi_times) U(csch) U(exp)
	U(exp_minus_1) U(lb) U(lb_1_plus) U(lg) U(lg_1_plus) U(ln) U(ln_1_plus) U(sec)
	U(sec_pi_times) U(sech) U(sign) U(sin) U(sin_pi_times) U(sinh) U(tan) U(tan_pi_times)
	U(tanh)
#undef U
	{"abs", O_UN, U_absolute}, {"inv", O_UN, U_inversion}, {"sqrt", O_UN, U_square_root},
	{"+", O_BIN, B_addition}, {"-", O_BIN, B_subtraction}, {"*", O_BIN, B_multiplication},
	{"/", O_BIN, B_division}, {"hypotenuse", O_BIN, B_hypotenuse},
	{"arctan2", O_BIN, B_arctan2}, {"arctan2_over_pi", O_BIN, B_arctan2_over_pi},
	{"root", O_INT, I_root}, {"^", O_POW, 0}, {"precision", O_PREC, 0}, {"?", O_HELP, 0},
#define X(T, N, L) {#T, O_TYPE, T_##T},
	TYPE_LIST(X)
#undef X
};
static const size_t NOPS = sizeof OPS / sizeof *OPS;
static const Op *find_op(const Str &s)
{
	for (auto &o : OPS) {
		if (s == o.id) {
			return &o;
		}
	}
	return nullptr;
}

struct Calc {
	int type = T_takum64;
	Num reg[26];
	size_t next = 0;
	std::vector<Num> st;
	Str help;
	/* of one line */
	Str out, err;
	const Op *last;
	/* known findings: calculator_cast and calculator_int_min */
	bool uncastable = false, below = false, accept_below = false;

	void push_result(int64_t a)
	{
		if (TYPES[type].lin) {
			long double f = TYPES[type].to_ext(a);
			uncastable |= !(f >= -0x1p63L && f < 0x1p63L);
		}
		st.push_back(result_of(type, a));
	}
	bool pop(Num &x)
	{
		if (st.empty()) {
			err += "stack underflow\n";
			return false;
		}
		x = st.back();
		st.pop_back();
		return true;
	}
	bool number(const Str &tok)
	{
		char *ie, *fe;
		errno = 0;
		long long iv = c99_strtoll(tok.c_str(), &ie, 0);
		bool range = errno == ERANGE || iv == INT64_MAX;
		if (*ie == '\0' && range && iv < 0) {
			below = true;
			range = !accept_below;
		}
		long double f = strtold(tok.c_str(), &fe);
		Num x;
		if (*ie == '\0') {
			f = range ? (long double)NAN : (long double)iv;
			x.i = range ? OPAQUE : iv;
		} else if (*fe == '\0') {
			x.i = f == -1 ? -1 : f == 0 ? 0 : f == 1 ? 1 : OPAQUE;
		} else {
			err += "invalid token '" + tok + "'\n";
			return false;
		}
		x.type = type;
		x.v[type] = TYPES[type].from_ext(f);
		fill(x);
		st.push_back(x);
		return true;
	}
	/* false ends the line without a result */
	bool token(const Str &tok)
	{
		Num a, b;
		const Type &T = TYPES[type];
		if (tok.size() == 1 && tok[0] >= 'a' && tok[0] <= 'z') {
			st.push_back(reg[tok[0] - 'a']);
			return true;
		}
		const Op *o = find_op(tok);
		if (!o) {
			return number(tok);
		}
		last = o;
		switch (o->kind) {
		case O_HELP: out += help; return false;
		case O_TYPE: type = o->fn; return false;
		case O_UN:
			if (!pop(a)) return false;
			push_result((T.un[o->fn](a.v[type])));
			return true;
		case O_PREC:
			if (!pop(a)) return false;
			push_result((T.from_ext((long double)T.precision(a.v[type]))));
			return true;
		case O_BIN:
			if (!pop(b) || !pop(a)) return false;
			push_result((T.bin[o->fn](a.v[type], b.v[type])));
			return true;
		case O_INT:
			if (!pop(b) || !pop(a) || b.i == OPAQUE) return false;
			push_result((T.ipow[o->fn](a.v[type], b.i)));
			return true;
		case O_POW:
			if (!pop(b) || !pop(a)) return false;
			push_result((b.i == OPAQUE ? T.bin[B_power](a.v[type], b.v[type]) :
							     T.ipow[I_integer_power](a.v[type], b.i)));
			return true;
		}
		return false;
	}
	static Str print(const Num &x)
	{
		char s[128];
		if (x.i != OPAQUE) {
			snprintf(s, sizeof s, "%lld", (long long)x.i);
		} else {
			long double f = TYPES[x.type].to_ext(x.v[x.type]);
			if (f != f) {
				return "NaR";
			}
			snprintf(s, sizeof s, "%Lg", f);
		}
		return s;
	}
	void line(const Str &raw)
	{
		out.clear();
		err.clear();
		st.clear();
		below = false;
		last = nullptr;
		size_t n = raw.find('\0'), i = 0;
		Str l = raw.substr(0, n);
		bool any = false, ok = true;
		while (ok) {
			i = l.find_first_not_of(" \n", i);
			if (i == Str::npos) {
				break;
			}
			size_t e = l.find_first_of(" \n", i);
			Str tok = l.substr(i, e == Str::npos ? e : e - i);
			any = true;
			ok = token(tok);
			i = e == Str::npos ? l.size() : e;
		}
		if (any && ok) {
			if (st.size() != 1) {
				err += "invalid expression, final stack size is not one\n";
			} else {
				out += Str(1, (char)('a' + next)) + " \xe2\x86\x90 " + print(st[0]) + "\n";
				reg[next] = st[0];
				next = (next + 1) % 26;
			}
		}
		out += "> ";
	}
};

/* ---- scripts ---------------------------------------------------------- */
static Str literal(Rng &r, int t)
{
	char s[160];
	static const char *const odd[] = {"inf", "-inf", "nan", "-nan", "infinity", "NAN", "nan(7)", "0x", "0x1p3", "08", "010",
					  "-0", "+0", "-0.0", "1.", ".5", "-.5e1", "1e", "1e400", "-1e-400", "1e5000", "1e-5000",
					  "0x7fffffffffffffff", "9223372036854775806", "9223372036854775807", "9223372036854775808",
					  "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999",
					  "-99999999999999999999999", "0x8000000000000000", "0xffffffffffffffff", "-0x8000000000000000",
					  "\t5", "5\t", "+5", "--5", "1.0", "-1.0", "1e0", "0x1p0", "0.999999999999999999999999"};
	switch (r.below(8)) {
	case 0: case 1: snprintf(s, sizeof s, "%lld", (long long)r.below(41) - 20); break;
	case 2: snprintf(s, sizeof s, "%lld", (long long)draw_int(r)); break;
	case 3: snprintf(s, sizeof s, "%La", TYPES[t].to_ext(draw(r, t))); break;
	case 4: snprintf(s, sizeof s, "%.*Lg", (int)r.below(22), TYPES[t].to_ext(draw(r, t))); break;
	case 5: snprintf(s, sizeof s, "%.3f", (r.unit() - 0.5) * 8); break;
	case 6: snprintf(s, sizeof s, r.next() & 1 ? "0x%llx" : "0%llo", (unsigned long long)(r.next() >> r.below(64))); break;
	default: return odd[r.below(sizeof odd / sizeof *odd)];
	}
	return s;
}
static void expr(Rng &r, int t, int depth, std::vector<Str> &out)
{
	if (depth <= 0 || r.chance(1, 5)) {
		out.push_back(r.chance(1, 4) ? Str(1, (char)('a' + r.below(26))) : literal(r, t));
		return;
	}
	const Op &o = OPS[r.below(NOPS)];
	switch (o.kind) {
	case O_UN: case O_PREC:
		expr(r, t, depth - 1, out);
		break;
	case O_BIN: case O_POW:
		expr(r, t, depth - 1, out);
		expr(r, t, depth - 1, out);
		break;
	case O_INT:
		expr(r, t, depth - 1, out);
		out.push_back(r.chance(5, 6) ? std::to_string((long long)draw_int(r)) : literal(r, t));
		break;
	default:
		expr(r, t, depth - 1, out);
		return;
	}
	out.push_back(o.id);
}
static Str gen_line(Rng &r, int &t)
{
	std::vector<Str> v;
	Str s;
	switch (r.below(24)) {
	case 0: case 1: case 2: /* switch the type, perhaps with more around it */
		t = (int)r.below(NUM_TYPES);
		if (r.chance(1, 4)) v.push_back(literal(r, t));
		v.push_back(TYPES[t].name);
		if (r.chance(1, 4)) v.push_back(literal(r, t));
		break;
	case 3: /* bare operand */
		v.push_back(r.next() & 1 ? Str(1, (char)('a' + r.below(26))) : literal(r, t));
		break;
	case 4: /* too many or too few operands */
		for (int k = (int)r.below(5); k >= 0; k--) v.push_back(r.next() & 1 ? literal(r, t) : OPS[r.below(NOPS)].id);
		break;
	case 5: { /* bytes */
		size_t n = r.below(40);
		for (size_t k = 0; k < n; k++) {
			char ch = (char)(r.chance(1, 3) ? 32 + r.below(95) : r.next());
			s += ch == '\n' ? ' ' : ch;
		}
		return s;
	}
	case 6: /* mangled operator names */
		expr(r, t, 1, v);
		v.back() += r.next() & 1 ? "x" : "_";
		if (r.next() & 1 && v.back().size() > 2) v.back().resize(v.back().size() - 2);
		break;
	case 7:
		if (r.chance(1, 4)) v.push_back("?");
		break;
	case 8: { /* one function on the registers */
		const Op &o = OPS[r.below(NOPS)];
		v.push_back(Str(1, (char)('a' + r.below(26))));
		v.push_back(Str(1, (char)('a' + r.below(26))));
		if (o.kind == O_UN || o.kind == O_PREC) v.pop_back();
		v.push_back(o.id);
		break;
	}
	default: expr(r, t, (int)r.below(4), v); break;
	}
	if (r.chance(1, 6)) s += Str(1 + r.below(3), ' ');
	for (size_t i = 0; i < v.size(); i++) {
		s += (i ? Str(r.chance(1, 8) ? 1 + r.below(4) : 1, ' ') : Str()) + v[i];
	}
	if (r.chance(1, 8)) s += Str(1 + r.below(3), ' ');
	if (r.chance(1, 40)) s += Str(1, '\0') + " 1 +";
	if (r.chance(1, 60)) s += Str(r.below(20000), r.next() & 1 ? ' ' : '7');
	return s;
}

/* ---- execution -------------------------------------------------------- */
static bool slurp(const Str &p, Str &s)
{
	FILE *f = fopen(p.c_str(), "rb");
	char b[65536];
	size_t n;
	s.clear();
	if (!f) {
		return false;
	}
	while ((n = fread(b, 1, sizeof b, f)) > 0) {
		s.append(b, n);
	}
	fclose(f);
	return true;
}
/* exit status of the calculator fed with the script; -1: could not run */
static int run_calc(Ctx &c, const Str &script, const char *oom, Str &out, Str &err, Str &san)
{
	char base[256];
	static int serial;
	snprintf(base, sizeof base, "%s/calc.%d.%d", opt.workdir.c_str(), (int)getpid(), serial++);
	Str pi = Str(base) + ".in", po = Str(base) + ".out", pe = Str(base) + ".err";
	FILE *f = fopen(pi.c_str(), "wb");
	if (!f || fwrite(script.data(), 1, script.size(), f) != script.size() || fclose(f)) {
		return -1;
	}
	c.tick();
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		int i = open(pi.c_str(), O_RDONLY), o = open(po.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600),
		    e = open(pe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (i < 0 || o < 0 || e < 0 || dup2(i, 0) < 0 || dup2(o, 1) < 0 || dup2(e, 2) < 0) {
			_exit(97);
		}
		if (oom) {
			setenv("MON_OOM", oom, 1);
		}
		/* calculator() builds everything but float-cast-overflow without recovery */
		setenv("ASAN_OPTIONS", (Str("detect_leaks=1:exitcode=88:allocator_may_return_null=1:log_path=") + base).c_str(), 1);
		setenv("UBSAN_OPTIONS", oom ? "halt_on_error=0:exitcode=88:print_stacktrace=1" :
					      "halt_on_error=0:exitcode=88:print_stacktrace=0", 1);
		alarm(120);
		execl(opt.libs[0].c_str(), "calculator", (char *)nullptr);
		_exit(97);
	}
	int st = -1;
	if (p < 0 || waitpid(p, &st, 0) != p || (WIFEXITED(st) && WEXITSTATUS(st) == 97)) {
		st = -1;
	}
	if (st != -1 && (!slurp(po, out) || !slurp(pe, err))) {
		st = -1;
	}
	Str ps = Str(base) + "." + std::to_string((long)p);
	slurp(ps, san);
	for (size_t b = 0, e; (e = err.find('\n', b)) != Str::npos;) { /* gcc's UBSan reports to stderr anyway */
		if (err.substr(b, e - b).find(": runtime error: ") != Str::npos) {
			san += err.substr(b, e + 1 - b);
			err.erase(b, e + 1 - b);
		} else {
			b = e + 1;
		}
	}
	unlink(ps.c_str());
	unlink(pi.c_str());
	unlink(po.c_str());
	unlink(pe.c_str());
	if (st == -1) {
		_exit(97);
	}
	return st;
}
static Str show(const Str &s)
{
	Str o;
	char b[8];
	for (unsigned char ch : s.substr(0, 160)) {
		if (ch >= 32 && ch != '\\') {
			o += (char)ch;
		} else {
			snprintf(b, sizeof b, "\\x%02x", ch);
			o += b;
		}
	}
	return s.size() > 160 ? o + "..." : o;
}
static const char PROMPT[] = "type '?' for help\n> ";

/* the help text as the calculator itself prints it */
static const Str &help(Ctx &c)
{
	static Str h;
	if (h.empty()) {
		Str o, e, r;
		int st = run_calc(c, "?\n", nullptr, o, e, r);
		size_t n = sizeof PROMPT - 1;
		if (st != 0 || o.size() < n + 2 || o.compare(0, n, PROMPT) || o.substr(o.size() - 2) != "> ") {
			c.fail("calculator|help", "'?' ends with status " + std::to_string(st) + ", output " + show(o) + show(e) + show(r));
			h = "?";
		} else {
			h = o.substr(n, o.size() - n - 2);
		}
	}
	return h;
}

/* every report is of a conversion of a floating-point number to an integer */
static bool only_casts(const Str &san)
{
	size_t reports = 0, casts = 0;
	for (size_t p = 0; (p = san.find("runtime error: ", p)) != Str::npos; p++) {
		size_t e = san.find('\n', p);
		reports++;
		casts += san.substr(p, e == Str::npos ? e : e - p).find(
				 " is outside the range of representable values of type 'long int'") != Str::npos;
	}
	return reports && reports == casts && san.find("Sanitizer:") == Str::npos;
}

static void script_case(Ctx &c, const std::vector<Str> &lines, bool newline_at_end)
{
	Str script, out, err, san;
	for (size_t i = 0; i < lines.size(); i++) {
		script += lines[i];
		if (i + 1 < lines.size() || newline_at_end) {
			script += '\n';
		}
	}
	Calc m;
	m.help = help(c);
	int st = run_calc(c, script, nullptr, out, err, san);
	c.evals += lines.size();
	c.stat["scripts"]++;
	size_t op = sizeof PROMPT - 1, ep = 0;
	if (out.compare(0, op, PROMPT)) {
		c.fail("calculator|greeting", "unexpected start of output: " + show(out));
		return;
	}
	for (size_t i = 0; i < lines.size(); i++) {
		if (i + 1 == lines.size() && !newline_at_end && lines[i].empty()) {
			break;
		}
		int type = m.type;
		Calc before;
		bool kept = lines[i].find('-') != Str::npos;
		if (kept) {
			before = m;
		}
		m.line(lines[i]);
		if (kept && m.below && (out.compare(op, m.out.size(), m.out) || err.compare(ep, m.err.size(), m.err))) {
			before.accept_below = true;
			before.line(lines[i]);
			before.accept_below = false;
			if (!out.compare(op, before.out.size(), before.out) && !err.compare(ep, before.err.size(), before.err)) {
				c.fail("calculator|below", Str("line '") + show(lines[i]) + "' in " + TYPES[type].name + " printed '" +
				       show(before.out) + "' instead of '" + show(m.out) + "'", "calculator_int_min");
				m = before;
			}
		}
		c.checks++;
		c.distinct(h64(std::hash<Str>()(lines[i]), (uint64_t)type));
		if (!m.err.empty()) {
			c.stat["lines_refused"]++;
		} else if (m.out.size() > 2) {
			c.stat["lines_with_result"]++;
		}
		if (out.compare(op, m.out.size(), m.out) || err.compare(ep, m.err.size(), m.err)) {
			Str l = m.last ? m.last->id : "line";
			c.fail("calculator|" + l, Str("line '") + show(lines[i]) + "' in " + TYPES[type].name + " printed '" +
			       show(out.substr(std::min(op, out.size()), m.out.size() + 60)) + "' / '" +
			       show(err.substr(std::min(ep, err.size()), m.err.size() + 200)) + "', expected '" + show(m.out) +
			       "' / '" + show(m.err) + "', status " + std::to_string(st) + " " + show(san));
			return;
		}
		op += m.out.size();
		ep += m.err.size();
		if (c.rng.below(4000) == 0) {
			c.note(Str(TYPES[type].name) + " '" + show(lines[i]) + "' -> '" + show(m.out) + "' " + show(m.err));
		}
	}
	if (op != out.size() || ep != err.size() || st != 0) {
		c.fail("calculator|end", "after the last line: status " + std::to_string(st) + ", further output '" +
		       show(out.substr(op)) + "' / '" + show(err.substr(ep)) + "' " + show(san));
		return;
	}
	if (!san.empty()) {
		bool cast = m.uncastable && only_casts(san);
		c.fail("calculator|sanitizer", show(san), cast ? "calculator_cast" : nullptr);
	}
}

/* an allocation fails: that line is given up, nothing else is affected */
static void oom_case(Ctx &c, uint64_t k)
{
	std::vector<Str> lines, want;
	Str script, out, err, san, oom = std::to_string(k);
	for (int i = 0; i < 12; i++) {
		Str l;
		size_t depth = 1 + c.rng.below(9);
		int64_t sum = 0;
		for (size_t d = 0; d < depth; d++) {
			int64_t x = 1 + (int64_t)c.rng.below(40);
			sum += x;
			l += std::to_string((long long)x) + " ";
		}
		for (size_t d = 1; d < depth; d++) {
			l += "+ ";
		}
		if (c.rng.chance(1, 4)) {
			l += Str(9000 + c.rng.below(20000), ' ');
		}
		script += (i ? l : "takum_linear64") + "\n";
		if (i) {
			want.push_back(std::to_string((long long)sum));
		}
		lines.push_back(l);
	}
	int st = run_calc(c, script, oom.c_str(), out, err, san);
	c.evals += lines.size();
	c.checks++;
	c.stat["allocation_failures_injected"]++;
	c.distinct(h64(k, std::hash<Str>()(script)));
	bool died = false;
	if (st != 0 || !san.empty()) {
		/* the stack lost by a failed expansion is written to or leaked */
		died = err.find("could not expand stack") != Str::npos && (san + err).find("calculator.c:") != Str::npos &&
		       (san.find("null pointer") != Str::npos || san.find("SEGV") != Str::npos ||
			san.find("detected memory leaks") != Str::npos);
		c.fail("calculator|oom|status", "allocation " + oom + " failing ends with status " + std::to_string(st) + ": " + show(err) +
		       show(san), died ? "calculator_stack" : nullptr);
		if (!died) {
			return;
		}
	}
	size_t w = 0, p = 0, got = 0;
	while ((p = out.find("\xe2\x86\x90 ", p)) != Str::npos) {
		size_t e = out.find('\n', p);
		Str v = out.substr(p + 4, e == Str::npos ? e : e - p - 4);
		char letter = p >= 2 ? out[p - 2] : '?';
		while (w < want.size() && want[w] != v) {
			w++;
		}
		if (w == want.size() || letter != (char)('a' + got)) {
			c.fail("calculator|oom", "allocation " + oom + " failing: unexpected result " + Str(1, letter) + " = " + show(v) +
			       " in '" + show(out.substr(p > 60 ? p - 60 : 0)) + "'");
			return;
		}
		w++;
		got++;
		p++;
	}
	if (!err.empty()) {
		c.stat["failures_reported"]++;
	}
}

PROPERTY(P22)
{
	if (opt.libs.empty()) {
		return;
	}
	/* every operator on every type, with integral and other operands */
	for (int t = 0; t < NUM_TYPES; t++) {
		jobs.push_back({Str("operators/") + TYPES[t].name, [=](Ctx &c) {
			std::vector<Str> l;
			l.push_back(TYPES[t].name);
			for (auto &o : OPS) {
				if (o.kind == O_TYPE || o.kind == O_HELP) {
					continue;
				}
				for (int k = 0; k < 14; k++) {
					Str a = literal(c.rng, t), b = literal(c.rng, t);
					if (k == 1) a = b = "2";
					if (k == 2) { a = "0.5"; b = "0"; }
					if (k == 3) { a = "-3"; b = "3"; }
					if (k == 4) { a = "1.5"; b = "0.25"; }
					l.push_back(a + (o.kind == O_UN || o.kind == O_PREC ? "" : " " + b) + " " + o.id);
				}
			}
			script_case(c, l, true);
		}});
	}
	/* every literal form in every type, and every register seen from
	 * every type */
	for (int part = 0; part < 4; part++) {
		jobs.push_back({"literals" + std::to_string(part), [=](Ctx &c) {
			for (uint64_t s = 0; s < scaled(3); s++) {
				std::vector<Str> l;
				for (int i = 0; i < 400; i++) {
					int t = (int)c.rng.below(NUM_TYPES), u = (int)c.rng.below(NUM_TYPES);
					l.push_back(TYPES[t].name);
					l.push_back(literal(c.rng, t));
					l.push_back(TYPES[u].name);
					l.push_back(Str(1, (char)('a' + c.rng.below(26))) + (c.rng.next() & 1 ? " abs" : ""));
				}
				script_case(c, l, true);
			}
		}});
	}
	for (int part = 0; part < 32; part++) {
		jobs.push_back({"random" + std::to_string(part), [=](Ctx &c) {
			for (uint64_t s = 0; s < scaled(10); s++) {
				std::vector<Str> l;
				int t = T_takum64;
				size_t n = 1 + c.rng.below(600);
				for (size_t i = 0; i < n; i++) {
					l.push_back(gen_line(c.rng, t));
				}
				script_case(c, l, c.rng.chance(3, 4));
			}
		}});
	}
	jobs.push_back({"edges", [=](Ctx &c) {
		script_case(c, {""}, false);
		script_case(c, {""}, true);
		script_case(c, {"1"}, false);
		script_case(c, {Str(1, '\0')}, true);
		script_case(c, {"+", "1 +", "root", "2 0.5 root", "2 3 root", "?"}, true);
		/* deep stacks and long lines */
		for (size_t n : {10ul, 1000ul, 20000ul}) {
			Str l;
			for (size_t i = 0; i < n; i++) l += "1 ";
			Str k = l;
			for (size_t i = 1; i < n; i++) l += "+ ";
			script_case(c, {"takum_linear64", l, k, l + "+"}, true);
		}
		/* around the buffer sizes of the line reader */
		for (size_t n = BUFSIZ - 3; n < BUFSIZ + 3; n++) {
			for (size_t m : {n, n + (n >> 2), n + (n >> 2) + 1}) {
				script_case(c, {Str(m, ' ') + "3 2 ^", Str(m, '4'), Str(m, ' ') + "2"}, c.rng.next() & 1);
			}
		}
		/* more results than registers */
		std::vector<Str> l;
		for (int i = 0; i < 80; i++) l.push_back(i % 3 ? std::to_string(i) : Str(1, (char)('a' + i % 26)) + " 1 +");
		script_case(c, l, true);
	}});
	jobs.push_back({"out_of_memory", [=](Ctx &c) {
		for (uint64_t k = 1; k <= scaled(20); k++) {
			oom_case(c, 1 + k % 20);
		}
	}});
}
