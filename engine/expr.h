// Hash-consed bit-vector expressions (width 1..64) with simplification and concrete evaluation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;
typedef int32_t i32;
typedef uint16_t u16;

enum Op : u8 {
	O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_EQ, O_ULT, O_SLT, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_NOT
};

struct Expr {
	Op op;
	u8 w;
	u32 id;
	Expr *a, *b, *c;
	u64 val; // constant value / variable index / extract offset
	const std::vector<u32> *vars;
	u64 stamp, ev;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64) v : ((i64)(v << (64 - w))) >> (64 - w); }

struct ExprHash {
	std::vector<Expr *> tab;
	size_t n = 0;
	ExprHash() : tab(1 << 16, nullptr) {}
	static u64 h(Op op, u8 w, Expr *a, Expr *b, Expr *c, u64 v)
	{
		u64 x = (u64) op * 0x9E3779B97F4A7C15ull + w;
		auto mix = [&](u64 y) { x ^= y + 0x9E3779B97F4A7C15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; x ^= x >> 32; };
		mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix(v);
		return x;
	}
	void grow()
	{
		std::vector<Expr *> o; o.swap(tab); tab.assign(o.size() * 2, nullptr);
		for (auto e : o) if (e) { u64 i = h(e->op, e->w, e->a, e->b, e->c, e->val) & (tab.size() - 1); while (tab[i]) i = (i + 1) & (tab.size() - 1); tab[i] = e; }
	}
};
static ExprHash g_eh;
static u32 g_eid = 0;
static const std::vector<u32> g_novars;

static Expr *mk(Op op, u8 w, Expr *a, Expr *b, Expr *c, u64 v)
{
	u64 m = g_eh.tab.size() - 1, i = ExprHash::h(op, w, a, b, c, v) & m;
	while (Expr *e = g_eh.tab[i]) {
		if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == v) return e;
		i = (i + 1) & m;
	}
	Expr *e = new Expr{op, w, g_eid++, a, b, c, v, nullptr, 0, 0};
	if (op == O_CONST) e->vars = &g_novars;
	g_eh.tab[i] = e;
	if (++g_eh.n * 2 > g_eh.tab.size()) g_eh.grow();
	return e;
}

static const std::vector<u32> &exprVars(Expr *e)
{
	if (e->vars) return *e->vars;
	if (e->op == O_VAR) { e->vars = new std::vector<u32>{(u32) e->val}; return *e->vars; }
	const std::vector<u32> *acc = nullptr;
	std::vector<u32> *own = nullptr;
	for (Expr *k : {e->a, e->b, e->c}) {
		if (!k) continue;
		const auto &v = exprVars(k);
		if (v.empty()) continue;
		if (!acc) { acc = &v; continue; }
		if (acc == &v) continue;
		if (std::includes(acc->begin(), acc->end(), v.begin(), v.end())) continue;
		if (std::includes(v.begin(), v.end(), acc->begin(), acc->end())) { acc = &v; continue; }
		auto *r = new std::vector<u32>();
		std::set_union(acc->begin(), acc->end(), v.begin(), v.end(), std::back_inserter(*r));
		own = r; acc = own;
	}
	e->vars = acc ? acc : &g_novars;
	return *e->vars;
}

static inline Expr *C(u64 v, unsigned w) { return mk(O_CONST, w, 0, 0, 0, v & maskw(w)); }
static inline bool isC(Expr *e) { return e->op == O_CONST; }
static Expr *mkNot(Expr *x);
static Expr *mkAnd(Expr *a, Expr *b);
static Expr *mkOr(Expr *a, Expr *b);
static Expr *mkIte(Expr *c, Expr *x, Expr *y);
static Expr *mkExtract(Expr *x, unsigned off, unsigned w);
static Expr *mkConcat(Expr *hi, Expr *lo);
static Expr *mkZExt(Expr *x, unsigned w);
static Expr *mkEq(Expr *a, Expr *b);
static Expr *mkUlt(Expr *a, Expr *b);
static Expr *mkSlt(Expr *a, Expr *b);

static Expr *mkAdd(Expr *a, Expr *b)
{
	if (isC(a)) std::swap(a, b);
	if (isC(b)) {
		if (isC(a)) return C(a->val + b->val, a->w);
		if (!b->val) return a;
		if (a->op == O_ADD && isC(a->b)) return mkAdd(a->a, C(a->b->val + b->val, a->w));
		if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
	} else {
		if (a->op == O_ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
		if (b->op == O_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
		if (a->id > b->id) std::swap(a, b);
	}
	return mk(O_ADD, a->w, a, b, 0, 0);
}
static Expr *mkSub(Expr *a, Expr *b)
{
	if (isC(b)) return mkAdd(a, C(0 - b->val, a->w));
	if (a == b) return C(0, a->w);
	if (a->op == O_ADD && isC(a->b) && a->a == b) return a->b;
	return mk(O_SUB, a->w, a, b, 0, 0);
}
static Expr *mkMul(Expr *a, Expr *b)
{
	if (isC(a)) std::swap(a, b);
	if (isC(b)) {
		if (isC(a)) return C(a->val * b->val, a->w);
		if (b->val == 0) return b;
		if (b->val == 1) return a;
		if ((b->val & (b->val - 1)) == 0) { unsigned k = __builtin_ctzll(b->val); return mkConcat(mkExtract(a, 0, a->w - k), C(0, k)); }
		if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
	}
	return mk(O_MUL, a->w, a, b, 0, 0);
}
static Expr *mkDiv(Op op, Expr *a, Expr *b)
{
	unsigned w = a->w;
	if (isC(a) && isC(b) && b->val) {
		i64 x = sx(a->val, w), y = sx(b->val, w);
		switch (op) {
		case O_UDIV: return C(a->val / b->val, w);
		case O_UREM: return C(a->val % b->val, w);
		case O_SDIV: return C(y == -1 ? 0 - a->val : (u64)(x / y), w);
		default: return C(y == -1 ? 0 : (u64)(x % y), w);
		}
	}
	if (isC(b) && b->val == 1) return (op == O_UDIV || op == O_SDIV) ? a : C(0, w);
	if (isC(b) && (op == O_UDIV || op == O_UREM) && (b->val & (b->val - 1)) == 0 && b->val) {
		unsigned k = __builtin_ctzll(b->val);
		if (op == O_UDIV) return mkZExt(mkExtract(a, k, w - k), w);
		return mkZExt(mkExtract(a, 0, k), w);
	}
	return mk(op, w, a, b, 0, 0);
}
static Expr *mkShift(Op op, Expr *a, Expr *b)
{
	unsigned w = a->w;
	if (isC(b)) {
		u64 s = b->val;
		if (s == 0) return a;
		if (s >= w) { if (op != O_ASHR) return C(0, w); s = w - 1; }
		if (isC(a)) { if (op == O_SHL) return C(a->val << s, w); if (op == O_LSHR) return C(a->val >> s, w); return C((u64)(sx(a->val, w) >> s), w); }
		if (op == O_SHL) return mkConcat(mkExtract(a, 0, w - s), C(0, s));
		if (op == O_LSHR) return mkZExt(mkExtract(a, s, w - s), w);
		return mk(O_ASHR, w, a, C(s, w), 0, 0);
	}
	return mk(op, w, a, b, 0, 0);
}
static Expr *mkAnd(Expr *a, Expr *b)
{
	if (isC(a)) std::swap(a, b);
	unsigned w = a->w;
	if (isC(b)) {
		if (isC(a)) return C(a->val & b->val, w);
		if (b->val == 0) return b;
		if (b->val == maskw(w)) return a;
		if ((b->val & (b->val + 1)) == 0) { unsigned k = 64 - __builtin_clzll(b->val); return mkZExt(mkExtract(a, 0, k), w); }
		if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkAnd(a->b, b), mkAnd(a->c, b));
	}
	if (a == b) return a;
	if (w == 1) {
		if (a == mkNot(b)) return C(0, 1);
		if (a->op == O_AND && (a->a == b || a->b == b)) return a;
		if (b->op == O_AND && (b->a == a || b->b == a)) return b;
	}
	if (!isC(b) && a->id > b->id) std::swap(a, b);
	return mk(O_AND, w, a, b, 0, 0);
}
static Expr *mkOr(Expr *a, Expr *b)
{
	if (isC(a)) std::swap(a, b);
	unsigned w = a->w;
	if (isC(b)) {
		if (isC(a)) return C(a->val | b->val, w);
		if (b->val == 0) return a;
		if (b->val == maskw(w)) return b;
	}
	if (a == b) return a;
	if (w == 1) {
		if (a == mkNot(b)) return C(1, 1);
		if (a->op == O_OR && (a->a == b || a->b == b)) return a;
		if (b->op == O_OR && (b->a == a || b->b == a)) return b;
	}
	if (!isC(b) && a->id > b->id) std::swap(a, b);
	return mk(O_OR, w, a, b, 0, 0);
}
static Expr *mkXor(Expr *a, Expr *b)
{
	if (isC(a)) std::swap(a, b);
	unsigned w = a->w;
	if (isC(b)) {
		if (isC(a)) return C(a->val ^ b->val, w);
		if (b->val == 0) return a;
		if (w == 1) return mkNot(a);
		if (a->op == O_XOR && isC(a->b)) return mkXor(a->a, C(a->b->val ^ b->val, w));
	}
	if (a == b) return C(0, w);
	if (w == 1) return mkNot(mkEq(a, b));
	if (!isC(b) && a->id > b->id) std::swap(a, b);
	return mk(O_XOR, w, a, b, 0, 0);
}
static Expr *mkNot(Expr *x)
{
	if (isC(x)) return C(!x->val, 1);
	if (x->op == O_NOT) return x->a;
	return mk(O_NOT, 1, x, 0, 0, 0);
}
static Expr *mkEq(Expr *a, Expr *b)
{
	if (a == b) return C(1, 1);
	if (isC(a)) std::swap(a, b);
	if (isC(b)) {
		if (isC(a)) return C(a->val == b->val, 1);
		if (a->w == 1) return b->val ? a : mkNot(a);
		switch (a->op) {
		case O_ZEXT: return (b->val & ~maskw(a->a->w)) ? C(0, 1) : mkEq(a->a, C(b->val, a->a->w));
		case O_SEXT: { u64 t = b->val & maskw(a->a->w); if (((u64) sx(t, a->a->w) & maskw(a->w)) != b->val) return C(0, 1); return mkEq(a->a, C(t, a->a->w)); }
		case O_CONCAT: return mkAnd(mkEq(a->a, C(b->val >> a->b->w, a->a->w)), mkEq(a->b, C(b->val, a->b->w)));
		case O_ADD: if (isC(a->b)) return mkEq(a->a, C(b->val - a->b->val, a->w)); break;
		case O_SUB: if (b->val == 0) return mkEq(a->a, a->b); break;
		case O_XOR: if (b->val == 0) return mkEq(a->a, a->b); if (isC(a->b)) return mkEq(a->a, C(a->b->val ^ b->val, a->w)); break;
		case O_ITE: {
			Expr *x = mkEq(a->b, b), *y = mkEq(a->c, b);
			if (isC(x) || isC(y)) return mkIte(a->a, x, y);
			break;
		}
		default: break;
		}
	} else {
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
		if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
		if (a->op == O_ADD && isC(a->b) && b->op == O_ADD && isC(b->b)) return mkEq(a->a, mkAdd(b->a, C(b->b->val - a->b->val, a->w)));
		if (a->id > b->id) std::swap(a, b);
	}
	return mk(O_EQ, 1, a, b, 0, 0);
}
static Expr *mkUlt(Expr *a, Expr *b)
{
	unsigned w = a->w;
	if (a == b) return C(0, 1);
	if (isC(a) && isC(b)) return C(a->val < b->val, 1);
	if (isC(b)) {
		if (b->val == 0) return C(0, 1);
		if (b->val == 1) return mkEq(a, C(0, w));
		if (a->op == O_ZEXT) return b->val > maskw(a->a->w) ? C(1, 1) : mkUlt(a->a, C(b->val, a->a->w));
		if (a->op == O_ITE) { Expr *x = mkUlt(a->b, b), *y = mkUlt(a->c, b); if (isC(x) || isC(y)) return mkIte(a->a, x, y); }
	} else if (isC(a)) {
		if (a->val == maskw(w)) return C(0, 1);
		if (a->val == 0) return mkNot(mkEq(b, a));
		if (b->op == O_ZEXT) return a->val >= maskw(b->a->w) ? C(0, 1) : mkUlt(C(a->val, b->a->w), b->a);
		if (b->op == O_ITE) { Expr *x = mkUlt(a, b->b), *y = mkUlt(a, b->c); if (isC(x) || isC(y)) return mkIte(b->a, x, y); }
	} else {
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
	}
	if (w == 1) return mkAnd(mkNot(a), b);
	return mk(O_ULT, 1, a, b, 0, 0);
}
static bool nonneg(Expr *e) { return (e->op == O_ZEXT) || (isC(e) && !(e->val >> (e->w - 1))) || (e->op == O_CONCAT && isC(e->a) && !(e->a->val >> (e->a->w - 1))); }
static Expr *mkSlt(Expr *a, Expr *b)
{
	unsigned w = a->w;
	if (a == b) return C(0, 1);
	if (isC(a) && isC(b)) return C(sx(a->val, w) < sx(b->val, w), 1);
	if (w == 1) return mkAnd(a, mkNot(b));
	if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
	if (nonneg(a) && isC(b)) return C(0, 1); // b negative
	if (nonneg(b) && isC(a)) return C(1, 1); // a negative
	if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
	if (isC(b) && a->op == O_SEXT) {
		i64 v = sx(b->val, w), lo = sx(1ull << (a->a->w - 1), a->a->w), hi = -(lo + 1);
		if (v <= lo) return C(0, 1);
		if (v > hi) return C(1, 1);
		return mkSlt(a->a, C((u64) v, a->a->w));
	}
	if (isC(a) && b->op == O_SEXT) {
		i64 v = sx(a->val, w), lo = sx(1ull << (b->a->w - 1), b->a->w), hi = -(lo + 1);
		if (v >= hi) return C(0, 1);
		if (v < lo) return C(1, 1);
		return mkSlt(C((u64) v, b->a->w), b->a);
	}
	if (isC(b) && a->op == O_ITE) { Expr *x = mkSlt(a->b, b), *y = mkSlt(a->c, b); if (isC(x) || isC(y)) return mkIte(a->a, x, y); }
	if (isC(a) && b->op == O_ITE) { Expr *x = mkSlt(a, b->b), *y = mkSlt(a, b->c); if (isC(x) || isC(y)) return mkIte(b->a, x, y); }
	return mk(O_SLT, 1, a, b, 0, 0);
}
static Expr *mkIte(Expr *c, Expr *x, Expr *y)
{
	if (isC(c)) return c->val ? x : y;
	if (x == y) return x;
	if (c->op == O_NOT) return mkIte(c->a, y, x);
	if (x->op == O_ITE && x->a == c) x = x->b;
	if (y->op == O_ITE && y->a == c) y = y->c;
	if (x == y) return x;
	if (x->w == 1) {
		if (isC(x)) return x->val ? (isC(y) ? c : mkOr(c, y)) : (isC(y) ? mkNot(c) : mkAnd(mkNot(c), y));
		if (isC(y)) return y->val ? mkOr(mkNot(c), x) : mkAnd(c, x);
		if (x == c) return mkOr(c, y);
		if (y == c) return mkAnd(c, x);
	}
	return mk(O_ITE, x->w, c, x, y, 0);
}
static Expr *mkZExt(Expr *x, unsigned w)
{
	if (x->w == w) return x;
	if (isC(x)) return C(x->val, w);
	if (x->op == O_ZEXT) x = x->a;
	if (x->op == O_ITE && isC(x->b) && isC(x->c)) return mkIte(x->a, C(x->b->val, w), C(x->c->val, w));
	return mk(O_ZEXT, w, x, 0, 0, 0);
}
static Expr *mkSExt(Expr *x, unsigned w)
{
	if (x->w == w) return x;
	if (isC(x)) return C((u64) sx(x->val, x->w), w);
	if (x->op == O_ZEXT) return mkZExt(x->a, w);
	if (x->op == O_SEXT) x = x->a;
	if (x->op == O_ITE && (isC(x->b) || isC(x->c))) return mkIte(x->a, mkSExt(x->b, w), mkSExt(x->c, w));
	return mk(O_SEXT, w, x, 0, 0, 0);
}
static Expr *mkExtract(Expr *x, unsigned off, unsigned w)
{
	if (off == 0 && w == x->w) return x;
	switch (x->op) {
	case O_CONST: return C(x->val >> off, w);
	case O_EXTRACT: return mkExtract(x->a, off + (unsigned) x->val, w);
	case O_CONCAT: {
		unsigned lw = x->b->w;
		if (off + w <= lw) return mkExtract(x->b, off, w);
		if (off >= lw) return mkExtract(x->a, off - lw, w);
		return mkConcat(mkExtract(x->a, 0, off + w - lw), mkExtract(x->b, off, lw - off));
	}
	case O_ZEXT: {
		unsigned iw = x->a->w;
		if (off >= iw) return C(0, w);
		if (off + w <= iw) return mkExtract(x->a, off, w);
		return mkZExt(mkExtract(x->a, off, iw - off), w);
	}
	case O_SEXT: {
		unsigned iw = x->a->w;
		if (off + w <= iw) return mkExtract(x->a, off, w);
		if (off == 0) return mkSExt(x->a, w);
		break;
	}
	case O_ITE: if (isC(x->b) || isC(x->c)) return mkIte(x->a, mkExtract(x->b, off, w), mkExtract(x->c, off, w)); break;
	case O_AND: return mkAnd(mkExtract(x->a, off, w), mkExtract(x->b, off, w));
	case O_OR: return mkOr(mkExtract(x->a, off, w), mkExtract(x->b, off, w));
	case O_XOR: return mkXor(mkExtract(x->a, off, w), mkExtract(x->b, off, w));
	case O_ADD: if (off == 0) return mkAdd(mkExtract(x->a, 0, w), mkExtract(x->b, 0, w)); break;
	case O_SUB: if (off == 0) return mkSub(mkExtract(x->a, 0, w), mkExtract(x->b, 0, w)); break;
	default: break;
	}
	return mk(O_EXTRACT, w, x, 0, 0, off);
}
static Expr *mkConcat(Expr *hi, Expr *lo)
{
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return C((hi->val << lo->w) | lo->val, w);
	if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
	if (hi->op == O_EXTRACT) {
		if (lo->op == O_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(lo->a, (unsigned) lo->val, w);
		if (lo->op == O_CONCAT && lo->a->op == O_EXTRACT && lo->a->a == hi->a && hi->val == lo->a->val + lo->a->w)
			return mkConcat(mkExtract(hi->a, (unsigned) lo->a->val, hi->w + lo->a->w), lo->b);
	}
	if (hi->op == O_ZEXT) { // zero part on top
		return mkZExt(mkConcat(hi->a, lo), w);
	}
	return mk(O_CONCAT, w, hi, lo, 0, 0);
}

typedef std::vector<u64> Model;
static u64 g_stamp = 0;
static u64 evalRec(Expr *e, const Model &m)
{
	if (e->op == O_CONST) return e->val;
	if (e->stamp == g_stamp) return e->ev;
	u64 r = 0;
	unsigned w = e->w;
	switch (e->op) {
	case O_VAR: r = e->val < m.size() ? m[e->val] : 0; break;
	case O_ADD: r = evalRec(e->a, m) + evalRec(e->b, m); break;
	case O_SUB: r = evalRec(e->a, m) - evalRec(e->b, m); break;
	case O_MUL: r = evalRec(e->a, m) * evalRec(e->b, m); break;
	case O_UDIV: { u64 y = evalRec(e->b, m), x = evalRec(e->a, m); r = y ? x / y : ~0ull; break; }
	case O_UREM: { u64 y = evalRec(e->b, m), x = evalRec(e->a, m); r = y ? x % y : x; break; }
	case O_SDIV: { i64 y = sx(evalRec(e->b, m), w), x = sx(evalRec(e->a, m), w); r = y == 0 ? (x < 0 ? 1 : ~0ull) : y == -1 ? 0 - (u64) x : (u64)(x / y); break; }
	case O_SREM: { i64 y = sx(evalRec(e->b, m), w), x = sx(evalRec(e->a, m), w); r = y == 0 ? (u64) x : y == -1 ? 0 : (u64)(x % y); break; }
	case O_AND: r = evalRec(e->a, m) & evalRec(e->b, m); break;
	case O_OR: r = evalRec(e->a, m) | evalRec(e->b, m); break;
	case O_XOR: r = evalRec(e->a, m) ^ evalRec(e->b, m); break;
	case O_SHL: { u64 s = evalRec(e->b, m); r = s >= w ? 0 : evalRec(e->a, m) << s; break; }
	case O_LSHR: { u64 s = evalRec(e->b, m); r = s >= w ? 0 : evalRec(e->a, m) >> s; break; }
	case O_ASHR: { u64 s = evalRec(e->b, m); i64 x = sx(evalRec(e->a, m), w); r = (u64)(x >> (s >= w ? w - 1 : s)); if (w == 64 && s >= 64) r = x < 0 ? ~0ull : 0; break; }
	case O_EQ: r = evalRec(e->a, m) == evalRec(e->b, m); break;
	case O_ULT: r = evalRec(e->a, m) < evalRec(e->b, m); break;
	case O_SLT: r = sx(evalRec(e->a, m), e->a->w) < sx(evalRec(e->b, m), e->a->w); break;
	case O_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
	case O_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
	case O_EXTRACT: r = evalRec(e->a, m) >> e->val; break;
	case O_ZEXT: r = evalRec(e->a, m); break;
	case O_SEXT: r = (u64) sx(evalRec(e->a, m), e->a->w); break;
	case O_NOT: r = !evalRec(e->a, m); break;
	default: abort();
	}
	r &= maskw(w);
	e->stamp = g_stamp;
	e->ev = r;
	return r;
}
static u64 evalExpr(Expr *e, const Model &m) { g_stamp++; return evalRec(e, m); }

struct VarInfo { std::string name; u32 seq; u8 w; bool input; };
static std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, Expr *> g_varmap;
static Expr *mkVar(const std::string &name, u32 seq, u8 w, bool input)
{
	std::string key = name + "#" + std::to_string(seq) + ":" + std::to_string(w);
	auto &e = g_varmap[key];
	if (!e) { e = mk(O_VAR, w, 0, 0, 0, g_vars.size()); g_vars.push_back({name, seq, w, input}); }
	return e;
}
