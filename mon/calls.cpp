/* call lists: what to call, with which operands, and the raw result */
#include "calls.h"
#include <math.h>

Bits call_bits(const Type *tab, const Case &c)
{
	const Type &T = tab[c.type];
	Bits b = {0, 0};
	switch (c.kind) {
	case K_UNARY: b.lo = (uint64_t)T.un[c.fn](c.a); break;
	case K_BINARY: b.lo = (uint64_t)T.bin[c.fn](c.a, c.b); break;
	case K_INT: b.lo = (uint64_t)T.ipow[c.fn](c.a, c.b); break;
	case K_FROM32: b.lo = (uint64_t)T.from_f32((float)c.f); break;
	case K_FROM64: b.lo = (uint64_t)T.from_f64((double)c.f); break;
	case K_FROMEXT: b.lo = (uint64_t)T.from_ext(c.f); break;
	case K_CONV: b.lo = (uint64_t)T.from_type[c.src](c.a); break;
	case K_PREC: b.lo = (uint64_t)T.precision(c.a); break;
	case K_TO32: {
		float f = T.to_f32(c.a);
		if (f != f) {
			b.hi = 1;
		} else {
			memcpy(&b.lo, &f, 4);
		}
		break;
	}
	case K_TO64: {
		double f = T.to_f64(c.a);
		if (f != f) {
			b.hi = 1;
		} else {
			memcpy(&b.lo, &f, 8);
		}
		break;
	}
	case K_TOEXT: {
		long double f = T.to_ext(c.a);
		if (f != f) {
			b.hi = 1 << 20;
		} else {
			memcpy(&b.lo, &f, 8);
			memcpy(&b.hi, (char *)&f + 8, 2);
		}
		break;
	}
	}
	return b;
}

const std::vector<Callee> &callees()
{
	static std::vector<Callee> v;
	if (v.empty()) {
		for (int t = 0; t < NUM_TYPES; t++) {
			for (int f = 0; f < NUM_UNARY; f++) {
				v.push_back({K_UNARY, f, t, 0});
			}
			for (int f = 0; f < NUM_BINARY; f++) {
				v.push_back({K_BINARY, f, t, 0});
			}
			for (int f = 0; f < NUM_INT; f++) {
				v.push_back({K_INT, f, t, 0});
			}
			static const int o[] = {K_TO32, K_TO64, K_TOEXT, K_FROM32, K_FROM64, K_FROMEXT, K_PREC};
			for (int k : o) {
				v.push_back({k, 0, t, 0});
			}
			for (int s = 0; s < NUM_TYPES; s++) {
				if (s != t) {
					v.push_back({K_CONV, 0, t, s});
				}
			}
		}
	}
	return v;
}

std::string callee_name(const Callee &c)
{
	Case k = {c.kind, c.fn, c.type, c.src, 0, 0, 0};
	return fnname(k);
}

static int fmt_of(int kind) { return kind == K_FROM32 ? 0 : kind == K_FROM64 ? 1 : kind == K_FROMEXT ? 2 : -1; }

Case draw_call(Rng &r, const Callee &c, const Case *p)
{
	Case k = {c.kind, c.fn, c.type, c.src, 0, 0, 0};
	int f = fmt_of(c.kind), at = c.kind == K_CONV ? c.src : c.type;
	bool same = p && (p->kind == K_CONV ? p->src : p->type) == at && fmt_of(p->kind) < 0;
	if (f >= 0) {
		k.f = p && fmt_of(p->kind) == f && r.chance(1, 4) ?
		      (r.next() & 1 ? -p->f : p->f) : draw_float(r, c.type, f);
		return k;
	}
	if (same && r.chance(1, 2)) {
		k.a = r.chance(1, 3) ? p->a : draw_partner(r, at, p->a);
	} else {
		k.a = draw(r, at);
	}
	if (c.kind == K_BINARY) {
		k.b = same && r.chance(1, 4) ? p->b : draw_partner(r, at, k.a);
		if (same && r.chance(1, 6)) {
			k.a = p->b;
			k.b = p->a;
		}
		/* p may belong to another arity: its b is then an integer */
		k.b = sx(TYPES[at].n, (uint64_t)k.b);
		k.a = sx(TYPES[at].n, (uint64_t)k.a);
	} else if (c.kind == K_INT) {
		k.b = draw_int(r);
	}
	return k;
}

void structured_calls(std::vector<Case> &v, const Callee &c)
{
	int f = fmt_of(c.kind), at = c.kind == K_CONV ? c.src : c.type;
	if (f >= 0 || c.kind == K_BINARY || c.kind == K_INT) {
		return;
	}
	auto add = [&](const std::vector<int64_t> &l) {
		for (auto a : l) {
			v.push_back({c.kind, c.fn, c.type, c.src, a, 0, 0});
		}
	};
	if (TYPES[at].n <= 16) {
		for (int64_t a = TYPES[at].nar; a <= TYPES[at].maxv; a++) {
			v.push_back({c.kind, c.fn, c.type, c.src, a, 0, 0});
		}
	} else {
		add(corners(at));
		add(specials(at));
		add(dictionary(at));
	}
}
