// Z3 back end: independence slicing, query cache, models.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <map>
#include <unistd.h>

struct SolverStats { u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxTime = 0; };
static SolverStats g_ss;
static double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
	Z3_context ctx = nullptr;
	Z3_solver sol = nullptr;
	std::vector<Z3_ast> bvc, boc;
	unsigned timeoutMs = 30000;
	struct Entry { int r; std::vector<std::pair<u32, u64>> model; };
	std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, Entry>>> cache;
	FILE *smtDump = nullptr; u64 smtDumpMax = 0, smtDumped = 0; u64 dumpEvery = 1;

	void init()
	{
		Z3_config cfg = Z3_mk_config();
		Z3_set_param_value(cfg, "model", "true");
		ctx = Z3_mk_context(cfg);
		Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(7); });
		sol = Z3_mk_simple_solver(ctx);
		Z3_solver_inc_ref(ctx, sol);
		Z3_params p = Z3_mk_params(ctx);
		Z3_params_inc_ref(ctx, p);
		Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
		Z3_solver_set_params(ctx, sol, p);
	}
	static Z3_ast &slot(std::vector<Z3_ast> &v, Expr *e) { if (e->id >= v.size()) v.resize(std::max<size_t>(e->id + 1, v.size() * 2), nullptr); return v[e->id]; }
	bool isBoolOp(Expr *e) { return e->w == 1 && (e->op == O_EQ || e->op == O_ULT || e->op == O_SLT || e->op == O_NOT || e->op == O_AND || e->op == O_OR || e->op == O_XOR || e->op == O_ITE); }
	Z3_ast boolOf(Expr *e)
	{
		Z3_ast r = slot(boc, e);
		if (r) return r;
		switch (e->op) {
		case O_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
		case O_EQ: if (e->a->w == 1) r = Z3_mk_iff(ctx, boolOf(e->a), boolOf(e->b)); else r = Z3_mk_eq(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_ULT: r = Z3_mk_bvult(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_SLT: r = Z3_mk_bvslt(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_NOT: r = Z3_mk_not(ctx, boolOf(e->a)); break;
		case O_AND: if (e->w == 1) { Z3_ast k[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_and(ctx, 2, k); } break;
		case O_OR: if (e->w == 1) { Z3_ast k[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_or(ctx, 2, k); } break;
		case O_XOR: r = Z3_mk_xor(ctx, boolOf(e->a), boolOf(e->b)); break;
		case O_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), boolOf(e->b), boolOf(e->c)); break;
		default: r = Z3_mk_eq(ctx, bvOf(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
		}
		slot(boc, e) = r;
		return r;
	}
	Z3_ast bvOf(Expr *e)
	{
		Z3_ast r = slot(bvc, e);
		if (r) return r;
		if (e->op != O_CONST && isBoolOp(e)) {
			Z3_sort s = Z3_mk_bv_sort(ctx, 1);
			r = Z3_mk_ite(ctx, boolOf(e), Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
			slot(bvc, e) = r;
			return r;
		}
		switch (e->op) {
		case O_CONST: r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->w)); break;
		case O_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int) e->val), Z3_mk_bv_sort(ctx, e->w)); break;
		case O_ADD: r = Z3_mk_bvadd(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_SUB: r = Z3_mk_bvsub(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_MUL: r = Z3_mk_bvmul(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_UDIV: r = Z3_mk_bvudiv(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_SDIV: r = Z3_mk_bvsdiv(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_UREM: r = Z3_mk_bvurem(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_SREM: r = Z3_mk_bvsrem(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_AND: r = Z3_mk_bvand(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_OR: r = Z3_mk_bvor(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_XOR: r = Z3_mk_bvxor(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_SHL: r = Z3_mk_bvshl(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_LSHR: r = Z3_mk_bvlshr(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_ASHR: r = Z3_mk_bvashr(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), bvOf(e->b), bvOf(e->c)); break;
		case O_CONCAT: r = Z3_mk_concat(ctx, bvOf(e->a), bvOf(e->b)); break;
		case O_EXTRACT: r = Z3_mk_extract(ctx, (unsigned) e->val + e->w - 1, (unsigned) e->val, bvOf(e->a)); break;
		case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bvOf(e->a)); break;
		case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bvOf(e->a)); break;
		default: abort();
		}
		slot(bvc, e) = r;
		return r;
	}
	// cs: constraints. returns 1 sat, 0 unsat, -1 unknown; fills model for vars in cs
	int check(std::vector<Expr *> &cs, Entry **out)
	{
		std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
		cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
		std::vector<u32> key;
		key.reserve(cs.size());
		u64 h = 1469598103934665603ull;
		for (auto e : cs) { key.push_back(e->id); h = (h ^ e->id) * 1099511628211ull; }
		auto &bucket = cache[h];
		for (auto &p : bucket) if (p.first == key) { g_ss.cacheHits++; *out = &p.second; return p.second.r; }
		double t0 = nowSec();
		g_ss.queries++;
		Z3_solver_push(ctx, sol);
		for (auto e : cs) Z3_solver_assert(ctx, sol, boolOf(e));
		Z3_lbool lr = Z3_solver_check(ctx, sol);
		Entry en;
		en.r = lr == Z3_L_TRUE ? 1 : lr == Z3_L_FALSE ? 0 : -1;
		if (lr == Z3_L_TRUE) {
			Z3_model m = Z3_solver_get_model(ctx, sol);
			Z3_model_inc_ref(ctx, m);
			std::vector<u32> vs;
			for (auto e : cs) { auto &v = exprVars(e); vs.insert(vs.end(), v.begin(), v.end()); }
			std::sort(vs.begin(), vs.end());
			vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
			for (u32 v : vs) {
				Expr *ve = mkVar(g_vars[v].name, g_vars[v].seq, g_vars[v].w, g_vars[v].input);
				Z3_ast val;
				uint64_t x = 0;
				if (Z3_model_eval(ctx, m, bvOf(ve), true, &val)) Z3_get_numeral_uint64(ctx, val, &x);
				en.model.push_back({v, x});
			}
			Z3_model_dec_ref(ctx, m);
			g_ss.sat++;
		} else if (lr == Z3_L_FALSE) g_ss.unsat++;
		else g_ss.unknown++;
		if (smtDump && smtDumped < smtDumpMax && g_ss.queries % dumpEvery == 0) {
			fprintf(smtDump, "; EXPECT %s\n(reset)\n(set-logic QF_BV)\n", en.r == 1 ? "sat" : en.r == 0 ? "unsat" : "unknown");
			Z3_ast_vector as = Z3_solver_get_assertions(ctx, sol); (void) as;
			fprintf(smtDump, "%s(check-sat)\n", Z3_solver_to_string(ctx, sol));
			smtDumped++;
		}
		Z3_solver_pop(ctx, sol, 1);
		double dt = nowSec() - t0;
		g_ss.time += dt;
		g_ss.maxTime = std::max(g_ss.maxTime, dt);
		bucket.emplace_back(key, en);
		*out = &bucket.back().second;
		return en.r;
	}
};
