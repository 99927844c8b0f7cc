/* algebraic laws: relations between several calls, no reference values */
#include "check.h"
#include "guided.h"

typedef __int128 I128;

struct Law {
	Ctx &c;
	int t;
	const Type &T;
	int64_t one;
	Law(Ctx &c_, int t_) : c(c_), t(t_), T(TYPES[t_]), one((int64_t)1 << (TYPES[t_].n - 2)) {}
	int64_t u(int f, int64_t a) { return c.U(f, t, a); }
	int64_t b(int f, int64_t x, int64_t y) { return c.B(f, t, x, y); }
	int64_t i(int f, int64_t x, int64_t n) { return c.I(f, t, x, n); }
	int64_t neg(int64_t x) { return x == T.nar ? x : -x; }
	/* equal up to `tol` steps for 64 bits */
	void eq(const char *law, int64_t x, int64_t y, int tol64, const std::string &what,
		const std::function<Q()> &exact = nullptr)
	{
		c.checks++;
		I128 d = (I128)x - y;
		if (d == 0) {
			return;
		}
		if (T.n == 64 && x != T.nar && y != T.nar && x != 0 && y != 0 && d <= tol64 && d >= -tol64) {
			c.stat["one_step_apart_64"]++;
			return;
		}
		if (exact && d >= -1 && d <= 1 && x != T.nar && y != T.nar) {
			/* two ways of computing one real number that lies next to
			 * a midpoint may round to either side */
			Q p = qabs(or_spos(T, exact()));
			if (qabs(p - floorq(p) - 0.5Q) <= 4 * or_errmodel(T, 0).pos) {
				c.stat["split_next_to_a_midpoint"]++;
				return;
			}
		}
		c.fail(std::string(T.name) + "|" + law, std::string(law) + ": " + what + ": " + lls(x) + " vs " + lls(y));
	}
	void le(const char *law, int64_t x, int64_t y, const std::string &what,
		const std::function<Q()> &exact = nullptr)
	{
		c.checks++;
		if (x == T.nar || y == T.nar || x <= y) {
			return;
		}
		if (exact && (I128)x - y == 1) { /* flat here, and next to a midpoint */
			Q p = qabs(or_spos(T, exact()));
			if (qabs(p - floorq(p) - 0.5Q) <= 4 * or_errmodel(T, 0).pos) {
				c.stat["split_next_to_a_midpoint"]++;
				return;
			}
		}
		if (T.n == 64 && (I128)x - y <= 1) {
			c.stat["one_step_apart_64"]++;
			return;
		}
		c.fail(std::string(T.name) + "|" + law, std::string(law) + ": " + what + ": " + lls(x) + " > " + lls(y));
	}
};

static const int ODD[] = {U_sin, U_tan, U_cot, U_csc, U_sinh, U_tanh, U_coth, U_csch, U_arsinh, U_artanh,
	U_arcsch, U_arcsin, U_arcsin_over_pi, U_arctan, U_arctan_over_pi, U_arccsc,
	U_arccsc_over_pi, U_inversion, U_sign, U_arcoth};
static const int EVEN[] = {U_cos, U_sec, U_cosh, U_sech, U_absolute};
static const int RISING[] = {U_exp, U_2_raised, U_10_raised, U_exp_minus_1, U_2_raised_minus_1, U_10_raised_minus_1,
	U_ln, U_lb, U_lg, U_ln_1_plus, U_lb_1_plus, U_lg_1_plus, U_sinh, U_tanh, U_arsinh, U_artanh, U_arcosh, U_arctan,
	U_arctan_over_pi, U_arcsin, U_arcsin_over_pi, U_square_root, U_sign};
static const int FALLING[] = {U_arccos, U_arccos_over_pi, U_arccot, U_arccot_over_pi, U_arsech};

static void unary_laws(Ctx &c, int t, int64_t a)
{
	Law L(c, t);
	const Type &T = L.T;
	if (a == T.nar) return;
	c.in_regime(t, a, false);
	c.distinct(h64((uint64_t)t, (uint64_t)a));
	std::string A = std::string(T.name) + " " + lls(a);
	auto inv = [=] { return 1 / or_value(TYPES[t], a); };
	L.eq("x+0=x", L.b(B_addition, a, 0), a, 0, A);
	L.eq("0+x=x", L.b(B_addition, 0, a), a, 0, A);
	L.eq("x-0=x", L.b(B_subtraction, a, 0), a, 0, A);
	L.eq("0-x=-x", L.b(B_subtraction, 0, a), -a, 0, A);
	L.eq("x-x=0", L.b(B_subtraction, a, a), 0, 0, A);
	L.eq("x+(-x)=0", L.b(B_addition, a, -a), 0, 0, A);
	L.eq("x*1=x", L.b(B_multiplication, a, L.one), a, 0, A);
	L.eq("1*x=x", L.b(B_multiplication, L.one, a), a, 0, A);
	L.eq("x*-1=-x", L.b(B_multiplication, a, -L.one), -a, 0, A);
	L.eq("x*0=0", L.b(B_multiplication, a, 0), 0, 0, A);
	L.eq("x/1=x", L.b(B_division, a, L.one), a, 0, A);
	L.eq("hypot(x,0)=|x|", L.b(B_hypotenuse, a, 0), L.u(U_absolute, a), 0, A);
	L.eq("hypot(0,x)=|x|", L.b(B_hypotenuse, 0, a), L.u(U_absolute, a), 0, A);
	L.eq("sign*abs=x", L.b(B_multiplication, L.u(U_sign, a), L.u(U_absolute, a)), a, 0, A);
	L.eq("x^1=x (integer)", L.i(I_integer_power, a, 1), a, 0, A);
	L.eq("root1=x", L.i(I_root, a, 1), a, 0, A);
	L.eq("x^1=x", L.b(B_power, a, L.one), a, 0, A);
	L.eq("x^2=x*x", L.i(I_integer_power, a, 2), L.b(B_multiplication, a, a), 1, A, [=] { Q x = or_value(TYPES[t], a); return x * x; });
	if (a != 0) {
		L.eq("x/x=1", L.b(B_division, a, a), L.one, 0, A);
		L.eq("0/x=0", L.b(B_division, 0, a), 0, 0, A);
		L.eq("x^0=1", L.i(I_integer_power, a, 0), L.one, 0, A);
		L.eq("x^0=1 (power)", L.b(B_power, a, 0), L.one, 0, A);
		L.eq("1/x=inv", L.b(B_division, L.one, a), L.u(U_inversion, a), 1, A, inv);
		L.eq("x^-1=inv", L.i(I_integer_power, a, -1), L.u(U_inversion, a), 1, A, inv);
		L.eq("root-1=inv", L.i(I_root, a, -1), L.u(U_inversion, a), 1, A, inv);
	}
	if (a >= 0) {
		L.eq("root2=sqrt", L.i(I_root, a, 2), L.u(U_square_root, a), 1, A, [=] { return sqrtq(or_value(TYPES[t], a)); });
	}
	for (int f : ODD) {
		L.eq((std::string("odd ") + UNARY_NAMES[f]).c_str(), L.u(f, -a), L.neg(L.u(f, a)), 1, A, [=] { return or_unary(f, or_value(TYPES[t], a)); });
	}
	for (int f : EVEN) {
		L.eq((std::string("even ") + UNARY_NAMES[f]).c_str(), L.u(f, -a), L.u(f, a), 0, A);
	}
	L.eq("abs idempotent", L.u(U_absolute, L.u(U_absolute, a)), L.u(U_absolute, a), 0, A);
	if (c.rng.below(5000) == 0) {
		c.note("all unary relations hold at " + A);
	}
	if (!T.lin && a != 0) {
		L.eq("inversion involutive", L.u(U_inversion, L.u(U_inversion, a)), a, 0, A);
	}
}
static void mono_case(Ctx &c, int t, int64_t a, int64_t b)
{
	Law L(c, t);
	if (a == L.T.nar || b == L.T.nar) return;
	if (a > b) {
		int64_t x = a; a = b; b = x;
	}
	std::string A = std::string(L.T.name) + " " + lls(a) + " <= " + lls(b);
	c.distinct(h64(h64((uint64_t)(t + 70), (uint64_t)a), (uint64_t)b));
	for (int f : RISING) {
		L.le((std::string("rising ") + UNARY_NAMES[f]).c_str(), L.u(f, a), L.u(f, b), A, [=] { return or_unary(f, or_value(TYPES[t], a)); });
	}
	for (int f : FALLING) {
		L.le((std::string("falling ") + UNARY_NAMES[f]).c_str(), L.u(f, b), L.u(f, a), A, [=] { return or_unary(f, or_value(TYPES[t], a)); });
	}
	/* inversion falls on either side of zero */
	if ((a > 0) == (b > 0) && a != 0 && b != 0) {
		L.le("falling inversion", L.u(U_inversion, b), L.u(U_inversion, a), A);
	}
}
static void binary_laws(Ctx &c, int t, int64_t a, int64_t b, int64_t d)
{
	Law L(c, t);
	const Type &T = L.T;
	if (a == T.nar || b == T.nar || d == T.nar) return;
	std::string A = std::string(T.name) + " " + lls(a) + ", " + lls(b);
	c.distinct(h64(h64((uint64_t)(t + 90), (uint64_t)a), (uint64_t)b));
	int64_t s = L.b(B_addition, a, b), m = L.b(B_multiplication, a, b), q = L.b(B_division, a, b), h = L.b(B_hypotenuse, a, b);
	int64_t df = L.b(B_subtraction, a, b);
	L.eq("a+b=b+a", s, L.b(B_addition, b, a), 0, A);
	L.eq("a*b=b*a", m, L.b(B_multiplication, b, a), 0, A);
	L.eq("hypot commutes", h, L.b(B_hypotenuse, b, a), 0, A);
	L.eq("a-b=-(b-a)", df, L.neg(L.b(B_subtraction, b, a)), 1, A, [=] { return or_binary(B_subtraction, or_value(TYPES[t], a), or_value(TYPES[t], b)); });
	L.eq("a-b=a+(-b)", df, L.b(B_addition, a, -b), 0, A);
	L.eq("-(a+b)=-a-b", L.neg(s), L.b(B_subtraction, -a, b), 1, A, [=] { return or_binary(B_addition, or_value(TYPES[t], a), or_value(TYPES[t], b)); });
	L.eq("(-a)*b=-(a*b)", L.b(B_multiplication, -a, b), L.neg(m), 1, A, [=] { return or_binary(B_multiplication, or_value(TYPES[t], a), or_value(TYPES[t], b)); });
	L.eq("(-a)*(-b)=a*b", L.b(B_multiplication, -a, -b), m, 0, A);
	L.eq("(-a)/b=-(a/b)", L.b(B_division, -a, b), L.neg(q), 1, A, [=] { return or_binary(B_division, or_value(TYPES[t], a), or_value(TYPES[t], b)); });
	L.eq("a/(-b)=-(a/b)", L.b(B_division, a, -b), L.neg(q), 1, A, [=] { return or_binary(B_division, or_value(TYPES[t], a), or_value(TYPES[t], b)); });
	L.eq("hypot even", L.b(B_hypotenuse, -a, b), h, 0, A);
	L.eq("hypot even 2", L.b(B_hypotenuse, a, -b), h, 0, A);
	L.le("|a|<=hypot", a < 0 ? -a : a, h, A);
	L.eq("arctan2 odd", L.b(B_arctan2, -a, b), a == 0 ? L.b(B_arctan2, a, b) : L.neg(L.b(B_arctan2, a, b)), 1, A, [=] { return or_binary(B_arctan2, or_value(TYPES[t], a), or_value(TYPES[t], b)); });
	/* order preservation, up to the range's ends */
	int64_t lo = a < b ? a : b, hi = a < b ? b : a;
	L.le("a<=b => a+d<=b+d", L.b(B_addition, lo, d), L.b(B_addition, hi, d), A + ", " + lls(d));
	L.le("a<=b => d-b<=d-a", L.b(B_subtraction, d, hi), L.b(B_subtraction, d, lo), A + ", " + lls(d));
	if (d >= 0) {
		L.le("a<=b => a*d<=b*d", L.b(B_multiplication, lo, d), L.b(B_multiplication, hi, d), A + ", " + lls(d));
		if (d > 0) L.le("a<=b => a/d<=b/d", L.b(B_division, lo, d), L.b(B_division, hi, d), A + ", " + lls(d));
	} else {
		L.le("a<=b => b*d<=a*d", L.b(B_multiplication, hi, d), L.b(B_multiplication, lo, d), A + ", " + lls(d));
	}
}
/* integer powers and roots: parity, order, and the takum exponent */
static Q int_exact(int fn, int t, int64_t a, int64_t n)
{
	Q l = logq(qabs(or_value(TYPES[t], a))), y = fn == I_integer_power ? l * (Q)n : l / (Q)n;
	y = y > 11000 ? (Q)HUGE_VALQ : y < -11000 ? 1e-4900Q : expq(y);
	return a < 0 && n % 2 ? -y : y;
}
static void int_laws(Ctx &c, int t, int64_t a, int64_t b, int64_t n)
{
	Law L(c, t);
	const Type &T = L.T;
	if (a == T.nar || a == 0 || b == T.nar || b == 0) return;
	std::string A = std::string(T.name) + " " + lls(a) + ", n = " + lls(n);
	int64_t p = a < 0 ? -a : a, q = b < 0 ? -b : b;
	c.distinct(h64(h64((uint64_t)(t + 110), (uint64_t)a), (uint64_t)n));
	if (p > q) {
		int64_t x = p; p = q; q = x;
	}
	for (int fn = 0; fn < NUM_INT; fn++) {
		int64_t up = L.i(fn, p, n), uq = L.i(fn, q, n), down = L.i(fn, -p, n);
		auto ex = [=] { return int_exact(fn, t, p, n); };
		std::string nm = INT_NAMES[fn];
		if (fn == I_root && n == 0) continue;
		if (n % 2) {
			L.eq(("odd " + nm).c_str(), down, L.neg(up), 1, A, ex);
		} else if (fn == I_integer_power) {
			L.eq(("even " + nm).c_str(), down, up, 1, A, ex);
		}
		if (n > 0) {
			L.le(("rising " + nm).c_str(), up, uq, A + ", against " + lls(q), ex);
		} else if (n < 0) {
			L.le(("falling " + nm).c_str(), uq, up, A + ", against " + lls(q), ex);
		}
		if (T.n < 64 && n != INT64_MAX) { /* in the exponent */
			int64_t one = L.one, nx = n == -1 && fn == I_root ? 1 : n + 1, v = L.i(fn, p, nx);
			bool rise = fn == I_integer_power ? p >= one : (n == -1) == (p >= one);
			if (fn == I_integer_power || (n != 0 && nx != 0)) {
				if (p == one) L.eq((nm + " of one").c_str(), v, up, 0, A);
				else if (rise) L.le((nm + " rises with n").c_str(), up, v, A, ex);
				else L.le((nm + " falls with n").c_str(), v, up, A, ex);
			}
		}
	}
	/* a takum exponent that is the same integer */
	if (T.lin && T.n < 64 && n >= -20 && n <= 20) {
		int64_t e = or_encode(T, (Q)n);
		if (or_value(T, e) == (Q)n) {
			L.eq("power(a,n)=integer_power(a,n)", L.b(B_power, a, e), L.i(I_integer_power, a, n), 1, A, [=] { return int_exact(I_integer_power, t, a, n); });
		}
	}
}
PROPERTY(P21)
{
	for (int t = 0; t < NUM_TYPES; t++) {
		const Type &T = TYPES[t];
		std::string b = T.name;
		if (T.n <= 16) {
			for (int part = 0; part < (T.n == 8 ? 1 : 16); part++) {
				jobs.push_back({b + "/exhaustive" + std::to_string(part), [=](Ctx &c) {
					int64_t span = (int64_t)1 << TYPES[t].n, step = span / (TYPES[t].n == 8 ? 1 : 16);
					int64_t lo = TYPES[t].nar + part * step;
					for (int64_t a = lo; a < lo + step; a++) {
						unary_laws(c, t, a);
						if (a < TYPES[t].maxv) mono_case(c, t, a, a + 1);
					}
				}});
			}
		} else {
			jobs.push_back({b + "/structured", [=](Ctx &c) {
				const std::vector<int64_t> *v[3] = {&corners(t), &dictionary(t), &specials(t)};
				for (auto p : v) for (auto a : *p) {
					unary_laws(c, t, a);
					mono_case(c, t, a, clampt(t, (I128)a + 1));
				}
			}});
			for (int part = 0; part < 8; part++) {
				jobs.push_back({b + "/random" + std::to_string(part), [=](Ctx &c) {
					for (uint64_t i = 0; i < scaled(8000); i++) {
						int64_t a = draw(c.rng, t);
						unary_laws(c, t, a);
						mono_case(c, t, a, i & 1 ? clampt(t, (I128)a + 1 + (int64_t)c.rng.below(3)) : draw(c.rng, t));
					}
				}});
			}
		}
		for (int part = 0; part < 8; part++) {
			jobs.push_back({b + "/pairs" + std::to_string(part), [=](Ctx &c) {
				for (uint64_t i = 0; i < scaled(20000); i++) {
					int64_t a = draw(c.rng, t), x = draw_partner(c.rng, t, a);
					int64_t n = i & 1 ? draw_int(c.rng) : (int64_t)c.rng.below(65) - 32;
					int_laws(c, t, a, i & 2 ? x : clampt(t, (I128)a + 1 + (int64_t)c.rng.below(3)), n);
					binary_laws(c, t, a, x, draw_partner(c.rng, t, a));
				}
			}});
		}
	}
	auto one = [](Ctx &c, const Case &k) {
		unary_laws(c, k.type, k.a);
		mono_case(c, k.type, k.a, clampt(k.type, (I128)k.a + 1));
	};
	guided_jobs(jobs, callees_of(K_UNARY, {}, {}), one, 4000);
	guided_jobs(jobs, callees_of(K_INT, {}, {}), [](Ctx &c, const Case &k) {
		int_laws(c, k.type, k.a, clampt(k.type, (I128)k.a + 1), k.b);
	}, 15000);
	guided_jobs(jobs, callees_of(K_BINARY, {}, {}), [](Ctx &c, const Case &k) {
		binary_laws(c, k.type, k.a, k.b, draw_partner(c.rng, k.type, k.a));
	}, 15000);
}
