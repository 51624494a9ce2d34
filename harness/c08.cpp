// C08: worker::check_header(s) against a reference reading of the header rules, over arbitrary header bytes.
#include "common.h"
#include "worker.h"
#include <map>
using hdrs = std::multimap<std::string, std::string>;
static int alternatives(const str &req, const str &group)
{
	// one of the '|'-separated alternatives of req equals group (group not empty)
	int r = 0;
	size_t n = req.size(), g = group.size();
	for (size_t i = 0; i + g <= n; i++) {
		int m = sym_byteseq(&req[i], &group[0], g);
		for (size_t k = i; k < i + g; k++) m = sym_and(m, req[k] != '|');
		if (i > 0) m = sym_and(m, req[i - 1] == '|');
		if (i + g < n) m = sym_and(m, req[i + g] == '|');
		r = sym_or(r, m);
	}
	return r;
}
static int all_digits(const str &s)
{
	int r = s.size() > 0;
	for (char c : s) r = sym_and(r, sym_and(c >= '0', c <= '9'));
	return r;
}
static int no_number(const str &s) // certainly no number: not even after leading blanks and signs are ignored; or junk follows
{
	int dig = s.size() > 0;
	if (s.empty()) return 1;
	// numbers with blanks or signs in front are left unspecified
	int plainstart = sym_and(s[0] > ' ', sym_and(s[0] != '+', s[0] != '-'));
	for (char c : s) dig = sym_and(dig, sym_and(c >= '0', c <= '9'));
	return sym_and(plainstart, !dig);
}
static uint64_t value(const str &s)
{
	uint64_t v = 0;
	for (char c : s) v = v * 10 + (uint64_t) (c - '0');
	return v;
}
#ifndef MANY
#define MANY 12
#endif
NOINLINE static void t_hwgroup()
{
	str group = sym_strn(1, GLEN, "group"), req = sym_strn(0, RLEN, "req");
	worker w("id", group, {{"env", "c"}});
	bool got = w.check_header("hwgroup", req);
	int want = alternatives(req, group);
	sym_tracev("hw", got);
	sym_assert(got == want, "hardware group requirement is satisfied exactly when an alternative equals the group");
	if (got) sym_reach("hw-match"); else sym_reach("hw-nomatch");
}
NOINLINE static void t_threads()
{
	str have = sym_digits(1 + sym_pick(NDIG, "have.len"), "have"), req = sym_strn(0, TLEN, "req");
	worker w("id", "g", {{"threads", have}});
	bool got = w.check_headers({{"threads", req}});
	sym_tracev("thr", got);
	if (got) sym_assert(!no_number(req), "a thread requirement that is no number is never satisfied");
	if (all_digits(req)) {
		sym_assert(got == (value(have) >= value(req)), "thread requirement is satisfied exactly when enough threads were announced");
		if (got) sym_reach("thr-match"); else sym_reach("thr-nomatch");
	} else sym_reach("thr-nonumber");
}
NOINLINE static void t_threads_big()
{
	// around 2^8, 2^16, 2^31, 2^32, 2^63, 2^64: no truncation, no wrap
	static const char *pre[] = {"2", "655", "21474836", "42949672", "92233720368547758", "184467440737095516", "184467440737095516"};
	uint32_t a = sym_pick(7, "mag");
	str big = str(pre[a]) + sym_digits(a == 4 ? 2 : 2, "low"), small = sym_digits(1, "small");
	if (a == 6) big += "0"; // beyond 64 bits
	int fits = a < 5 || (a == 5 && (big[18] < '1' || (big[18] == '1' && big[19] <= '5')));
	if (sym_pick(2, "who") == 0) {
		worker w("id", "g", {{"threads", small}});
		bool got = w.check_headers({{"threads", big}});
		sym_assert(!got, "a huge thread requirement is not satisfied by a small announcement");
		sym_reach("big-req");
	} else if (fits) {
		worker w("id", "g", {{"threads", big}});
		bool got = w.check_headers({{"threads", small}});
		sym_assert(got, "a large announcement satisfies a small requirement");
		sym_reach("big-have");
	}
}
NOINLINE static void t_threads_multi()
{
	// several announcements: any of them counts; others of unrelated names do not interfere
	str a = sym_digits(1, "a"), b = sym_digits(1, "b"), r = sym_digits(1, "r");
	worker w("id", "g", {{"threads", a}, {"env", "x"}, {"threads", b}, {"zeta", "9"}});
	bool got = w.check_headers({{"threads", r}});
	sym_assert(got == sym_or(a[0] >= r[0], b[0] >= r[0]), "any of several announced thread counts satisfies a requirement");
	str j = sym_strn(0, 2, "junk");
	worker v("id", "g", {{"threads", j}});
	bool g2 = v.check_headers({{"threads", r}});
	if (g2) sym_assert(!no_number(j), "an announcement that is no number satisfies nothing");
	sym_reach("multi");
}
NOINLINE static void t_plain()
{
	// NH announced headers, NR requirements; arbitrary names (1..2 bytes) and values
	hdrs have, req;
	std::vector<std::pair<str, str>> hv, rv;
	for (int i = 0; i < NH; i++) { str n = sym_strn(1, NLEN, "hn"), v = sym_strn(0, VLEN, "hv"); hv.push_back({n, v}); have.emplace(n, v); }
	for (int i = 0; i < NR; i++) { str n = sym_strn(1, NLEN, "rn"), v = sym_strn(0, VLEN, "rv"); rv.push_back({n, v}); req.emplace(n, v); }
	worker w("id", "g", have);
	bool got = w.check_headers(req);
	int want = 1;
	for (auto &r : rv) {
		int any = 0;
		for (auto &h : hv) any = sym_or(any, sym_and(eqv(r.first, h.first), eqv(r.second, h.second)));
		want = sym_and(want, any);
	}
	sym_tracev("plain", got);
	sym_assert(got == want, "every plain requirement needs an announced header of that name and value");
	sym_assert(w.check_headers({}), "a job without requirements suits every worker");
	if (got) sym_reach("plain-match"); else sym_reach("plain-nomatch");
}
NOINLINE static void t_mixed()
{
	// all three kinds together; requirements are a conjunction; the same name required twice needs both values
	str g = sym_str(1, "g"), e1 = sym_str(1, "e1"), e2 = sym_str(1, "e2"), t = sym_digits(1, "t");
	str rg = sym_str(1, "rg"), rg2 = sym_str(3, "rg2"), re1 = sym_str(1, "re1"), re2 = sym_str(1, "re2"), rt = sym_digits(1, "rt");
	worker w("id", g, {{"env", e1}, {"env", e2}, {"threads", t}});
	hdrs req;
	int want = 1;
	uint32_t m = sym_pick(16, "mask");
	if (m & 1) { req.emplace("hwgroup", rg); want = sym_and(want, alternatives(rg, g)); }
	if (m & 2) { req.emplace("env", re1); want = sym_and(want, sym_or(eqv(re1, e1), eqv(re1, e2))); }
	if (m & 4) { req.emplace("env", re2); want = sym_and(want, sym_or(eqv(re2, e1), eqv(re2, e2))); }
	if (m & 8) { req.emplace("threads", rt); want = sym_and(want, t[0] >= rt[0]); req.emplace("hwgroup", rg2); want = sym_and(want, alternatives(rg2, g)); }
	bool got = w.check_headers(req);
	sym_assert(got == want, "mixed requirements are a conjunction");
	if (got) sym_reach("mixed-match"); else sym_reach("mixed-nomatch");
	// a name the worker never announced
	sym_assert(!w.check_header("en", e1), "a requirement for a name never announced is not satisfied");
	sym_assert(!w.check_header("envx", e1), "a requirement for a name never announced is not satisfied (2)");
	sym_assert(!w.check_header("", e1), "a requirement for a name never announced is not satisfied (3)");
}
// longer texts: all alike except for their last byte, which is arbitrary
static str longtext(size_t n, const char *name)
{
	str s;
	for (size_t i = 0; i + 1 < n; i++) s += "abcdefghijklmnopqrstuvwxyz0123456789-_ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 64];
	return s + sym_str(1, name);
}
NOINLINE static void t_long()
{
	static const size_t lens[] = {15, 16, 31, 64, 257};
	size_t n = lens[sym_pick(5, "length")];
	if (sym_pick(2, "what") == 0) { // many alternatives
		str group = longtext(n, "group"), req;
		int k = 1 + (int) sym_pick(2, "alternatives") * 11, at = (int) sym_pick(3, "where");
		at = at == 0 ? 0 : at == 1 ? k / 2 : k - 1;
		for (int i = 0; i < k; i++) {
			if (i) req += '|';
			if (i == at) req += longtext(n, "alternative");
			else if (i % 3 == 0) req += group.substr(0, n - 2);
			else if (i % 3 == 1) req += "x" + group.substr(1, n - 2);
			else req += group.substr(0, n - 1) + "zz";
		}
		worker w("id", group, {{"env", "c"}});
		bool got = w.check_header("hwgroup", req);
		sym_assert(got == alternatives(req, group), "hardware group requirement is satisfied exactly when an alternative equals the group (long)");
		sym_reach(got ? "long-hw-match" : "long-hw-nomatch");
	} else { // long names and values, many of them
		hdrs have, req;
		str name = longtext(n, "name"), val = longtext(n, "value"), rn = longtext(n, "required-name"), rv = longtext(n, "required-value");
		int many = sym_pick(2, "many") ? MANY : 0;
		for (int i = 0; i < many; i++) have.emplace("env", str("value") + char('0' + i / 10) + char('0' + i % 10));
		have.emplace(name, val);
		for (int i = 0; i < many; i += 3) req.emplace("env", str("value") + char('0' + i / 10) + char('0' + i % 10));
		bool extra = many && sym_pick(2, "missing");
		if (extra) req.emplace("env", "value");
		req.emplace(rn, rv);
		worker w("id", "g", have);
		bool got = w.check_headers(req);
		sym_assert(got == sym_and(!extra, sym_and(eqv(name, rn), eqv(val, rv))), "every plain requirement needs an announced header of that name and value (long)");
		sym_reach(got ? "long-match" : "long-nomatch");
	}
}
extern "C" void sym_main()
{
	switch (sym_pick(7, "part")) {
	case 6: t_long(); break;
	case 0: t_hwgroup(); break;
	case 1: t_threads(); break;
	case 2: t_threads_big(); break;
	case 3: t_threads_multi(); break;
	case 4: t_plain(); break;
	case 5: t_mixed(); break;
	}
}
