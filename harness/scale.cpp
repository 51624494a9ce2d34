// Properties at larger scale than the arbitrary histories: long texts, many workers and jobs, large counts.
#include "broker.h"
#include "helpers/string_to_hex.h"
#ifndef PART // 1 long texts, 2 many workers and jobs, 3 large limits and counters, 4 large times
#define PART 1
#endif
#ifndef MANYW
#define MANYW 8
#endif
#ifndef MANYJ
#define MANYJ 20
#endif
#ifndef COUNT
#define COUNT 280
#endif
#ifndef NLENS
#define NLENS 3
#endif
static const str CL("\0client", 7);
static str N(const char *a, int n) { return str(a) + char('0' + n / 100 % 10) + char('0' + n / 10 % 10) + char('0' + n % 10); }
// a text of n bytes: those at the end are arbitrary, the others the same in all texts of that length
static str longtext(size_t n, size_t arbitrary, const char *name)
{
	str s;
	for (size_t i = 0; i + arbitrary < n; i++) s += "abcdefghijklmnopqrstuvwxyz0123456789-_ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 64];
	return s + sym_str(arbitrary, name);
}
static void lives(world &w, int i, std::size_t n)
{
	for (auto &p : w.reg->get_workers()) if (p->identity == w.ws[i].id) p->liveness = n;
	w.ws[i].lives = n;
}
#if PART == 1
static void texts(world &w)
{
	static const size_t lens[] = {17, 64, 260, 600};
	size_t n = lens[sym_pick(NLENS, "length")];
	W a, b;
	a.id = longtext(n < 255 ? n : 255, 0, "") ; b.id = a.id; // identities are limited to 255 bytes
	a.id.back() = '\0'; b.id.back() = '\x80';
	a.hw = longtext(n, 1, "group-a"); b.hw = longtext(n, 1, "group-b");
	sym_assume(sym_and(sym_and(a.hw.back() != '|', b.hw.back() != '|'), a.hw.back() != b.hw.back()));
	a.desc = longtext(n, 1, "description");
	str name = longtext(n, 0, "");
	a.hdrs = {{"env", longtext(n, 1, "env-a")}, {name, "1"}};
	b.hdrs = {{"env", longtext(n, 1, "env-b")}, {name, "2"}};
	w.init_new(a);
	w.init_new(b);
	for (auto &p : w.reg->get_workers()) if (mine(20)) {
		bool first = p->identity == a.id;
		str hex = "";
		for (unsigned char c : p->identity) { hex += "0123456789abcdef"[c >> 4]; hex += "0123456789abcdef"[c & 15]; }
		str d = p->get_description();
		AN(d.size() >= hex.size() && d.substr(0, hex.size()) == hex, "the description does not start with the identity in hexadecimal digits", 20);
		if (!first) A(d.size() == hex.size(), "something follows the identity although no description was announced", 20);
	}
	strs pay;
	int np = sym_pick(2, "frames") ? 40 : 1;
	for (int i = 0; i < np; i++) pay.push_back(i % 3 == 1 ? str("") : longtext(i ? 20 : n, i ? 0 : 2, "payload"));
	str id = longtext(n, 1, "job");
	hlist reqs;
	switch (sym_pick(4, "requirement")) {
	case 0: reqs = {{"env", longtext(n, 1, "renv")}}; break;
	case 1: reqs = {{"hwgroup", longtext(n, 1, "rhw")}}; sym_assume(reqs[0].second.back() != '|'); break;
	case 2: reqs = {{name, "2"}}; break;
	case 3: { str other = name; other.back() ^= 1; reqs = {{other, "2"}}; break; }
	}
	int j = w.add_job(id, reqs, pay);
	if (!w.eval(CL, j, {"meta." + name + "=x"})) { sym_reach("rejected"); return; }
	sym_reach("accepted");
	int x = w.js[j].w, y = 1 - x;
	// two more of the same kind, with ids that differ in one byte only
	str id2 = id, id3 = id;
	id2.back() ^= 1; id3.back() ^= 2;
	int j2 = w.add_job(id2, reqs, pay);
	w.eval(CL, j2);
	switch (sym_pick(6, "then")) {
	case 0: { str other = longtext(n, 1, "reported"); if (other == id) sym_kill(); w.done(w.ws[x].id, other, (int) sym_pick(2, "status"), "m"); sym_reach("mismatch"); break; }
	case 1: { str other = id; other.pop_back(); w.done(w.ws[x].id, other, 0, ""); w.done(w.ws[x].id, id + "x", 0, ""); break; }
	case 2: w.done(w.ws[x].id, id, 2, longtext(n, 1, "why")); sym_reach("failed"); break;
	case 3: w.done(w.ws[x].id, id, 1, longtext(n, 0, "")); sym_reach("internal"); break;
	case 4: { hlist h = w.ws[x].hdrs; h[0].second.back() ^= 1; w.init_again(x, w.ws[x].hw, h, w.ws[x].desc, nullptr, false); break; }
	case 5: { str hw = w.ws[x].hw; hw.back() ^= 1; if (hw.back() == '|') sym_kill(); w.init_again(x, hw, w.ws[x].hdrs, w.ws[x].desc, &id, false); sym_reach("keeps"); break; }
	}
	w.init_again(y, w.ws[y].hw, w.ws[y].hdrs, w.ws[y].desc, nullptr, true);
	w.progress(w.ws[x].id, pay);
	if (w.ws[x].job >= 0 && w.js[w.ws[x].job].complete) w.done(w.ws[x].id, w.js[w.ws[x].job].id, 0, "");
}
#endif
#if PART == 2
static void many(world &w)
{
	str e0 = sym_str(1, "env-0"), e1 = sym_str(1, "env-1");
	sym_assume(e0[0] != e1[0]);
	int nw = sym_pick(2, "workers") ? MANYW : 3, special = (int) sym_pick((uint32_t) nw, "special"); // the only worker of its kind
	if (special > 3 && special < nw - 1) sym_kill();
	for (int i = 0; i < nw; i++) {
		W a;
		a.id = N("\1W", i); a.hw = "g"; a.hdrs = {{"env", i == special ? e1 : e0}};
		w.init_new(a);
	}
	int when = (int) sym_pick(4, "when") * (MANYJ / 3 - 1);
	for (int j = 0; j < MANYJ; j++) w.eval(CL, w.add_job(N("job", j), {{"env", j == when || j + 2 >= MANYJ ? e1 : e0}}, {N("p", j)}));
	int what = (int) sym_pick(5, "what"), first = (int) sym_pick(2, "first") * (nw / 2);
	switch (what) {
	case 0: for (int i = first; i < first + nw / 2; i++) lives(w, i, 1); w.tick("1500", 1500); sym_reach("half-expired"); break;
	case 1: for (int i = 0; i < nw; i++) if (i != first) lives(w, i, 1); w.tick("1500", 1500); sym_reach("most-expired"); break;
	case 2: for (int i = 0; i < nw; i++) lives(w, i, 1); w.tick("1500", 1500); sym_reach("all-expired"); break;
	case 3: for (int i = 0; i < nw; i += 2) { hlist h = {{"env", e1}}; if (i != special) w.init_again(i, "g", h, "", nullptr, false); } sym_reach("registered-again"); break;
	case 4: for (int i = nw - 1; i >= 0; i--) if (w.ws[i].job >= 0) w.done(w.ws[i].id, w.js[w.ws[i].job].id, 1, "m"); sym_reach("all-failed"); break;
	}
	w.tick("300", 300);
	w.stats(CL);
	// everybody finishes something
	for (int i = 0; i < nw; i++) if (w.ws[i].alive && w.ws[i].job >= 0) w.done(w.ws[i].id, w.js[w.ws[i].job].id, i % 3 == 2 ? 2 : 0, "m");
	w.tick("300", 300);
	w.stats(CL);
	w.drain();
}
#endif
#if PART == 3
static void counters(world &w)
{
	W a;
	a.id = "A"; a.hw = "g"; a.hdrs = {{"env", "x"}};
	int kind = (int) sym_pick(3, "kind");
	if (kind == 0) { // many failures of one job; the last ones arbitrary
		std::size_t limit = sym_pick(2, "limit") ? COUNT : 3;
		w.config->failures = limit;
		w.init_new(a);
		int j = w.add_job("job", {{"env", "x"}}, {"p"});
		w.eval(CL, j);
		for (int i = 0; i < COUNT && w.js[j].st == RUN; i++) w.done("A", "job", 1, "m");
		A(w.js[j].st == GONE && w.js[j].fails == limit, "a failing job was not given up exactly when its failures reached the limit", 6);
		sym_reach("many-failures");
	} else if (kind == 1) { // huge limits, nearly reached
		static const uint64_t limits[] = {256, 65536, 4294967296ull, 0x7fffffffull, 0x80000000ull, 0xffffffffffffffffull};
		w.config->failures = limits[sym_pick(6, "limit")];
		w.init_new(a);
		int j = w.add_job("job", {{"env", "x"}}, {"p"});
		w.eval(CL, j);
		std::size_t before = w.config->failures - 1 - sym_pick(3, "left");
		w.q->get_current_request(w.reg->get_workers()[0])->failure_count = before;
		w.js[j].fails = before;
		for (int i = 0; i < 3 && w.js[j].st == RUN; i++) {
			if (sym_pick(2, "how")) w.done("A", "job", 1, "m");
			else { hlist h = {{"env", "x"}, {"n", N("", i)}}; w.init_again(0, "g", h, "", nullptr, false); }
		}
		sym_reach("huge-limit");
	} else { // many jobs
		w.init_new(a);
		std::size_t odd = sym_pick(3, "odd");
		for (int i = 0; i < COUNT; i++) {
			int j = w.add_job(N("job", i), {{"env", "x"}}, {});
			w.eval(CL, j);
			w.done("A", w.js[j].id, i % 5 == (int) odd ? 2 : 0, "m");
			w.js.pop_back();
		}
		w.stats(CL);
		// many waiting ones
		for (int i = 0; i < COUNT / 2; i++) w.eval(CL, w.add_job(N("wait", i), {{"env", "x"}}, {}));
		w.tick("10", 10);
		w.stats(CL);
		sym_reach("many-jobs");
		if (sym_pick(2, "expires")) { lives(w, 0, 1); w.tick("1500", 1500); w.stats(CL); }
		w.drain();
	}
}
#endif
#if PART == 4
static void times(world &w)
{
	W a, b;
	a.id = "A"; a.hw = "g"; a.hdrs = {{"env", "x"}};
	b = a; b.id = "B";
	if (sym_pick(2, "kind") == 0) { // many lives
		w.config->interval = 10;
		w.config->liveness = 2 + sym_pick(2, "lives") * (COUNT - 2);
		w.init_new(a);
		w.init_new(b);
		int heard = (int) sym_pick(3, "heard");
		for (int i = 0; i < COUNT + 3 && w.ws[0].alive; i++) {
			if (heard && i % (heard == 1 ? 1 : 100) == 0) w.ping("B");
			w.tick("11", 11);
		}
		A(!w.ws[0].alive, "a silent worker was never removed", 7);
		sym_reach("many-lives");
	} else { // long intervals and long silences
		static const long long iv[] = {65536, 2147483647ll, 2147483648ll, 4294967296ll, 9000000000000ll};
		static const char *const tv[] = {"65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9000000000000", "1"};
		static const long long tn[] = {65535, 65536, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 9000000000000ll, 1};
		w.config->interval = iv[sym_pick(5, "interval")];
		w.config->liveness = 2;
		w.init_new(a);
		w.init_new(b);
		for (int i = 0; i < 3; i++) {
			int t = (int) sym_pick(8, "elapsed");
			w.tick(tv[t], tn[t]);
			if (i == 0 && sym_pick(2, "heard")) w.ping("B");
		}
		sym_reach("long-intervals");
	}
}
#endif
#if PART == 5
// names and values that run into one another
static void splits(world &w)
{
	auto hdr = [](const char *n) { str name = sym_strn(1, 2, n), v = sym_strn(0, 2, "value"); for (char c : name) sym_assume(c != '='); return std::make_pair(name, v); };
	auto plain = [](const std::pair<str, str> &h) { return !(h.first == "threads" || h.first == "hwgroup"); };
	(void) plain;
	W a;
	a.id = "A"; a.hw = "g"; a.hdrs = {hdr("announced")};
	w.init_new(a);
	auto r1 = sym_pick(2, "first") ? hdr("required") : a.hdrs[0];
	if (r1.first.size() + r1.second.size() != a.hdrs[0].first.size() + a.hdrs[0].second.size()) sym_kill(); // the others are covered elsewhere
	int j = w.add_job("j", {r1}, {"p"});
	bool in = w.eval(CL, j);
	if (in) { w.done("A", "j", 0, ""); sym_reach("accepted"); } else sym_reach("rejected");
	auto r2 = hdr("again");
	if (r2.first.size() + r2.second.size() != r1.first.size() + r1.second.size()) sym_kill();
	if (sym_pick(2, "then")) {
		bool same = sym_and(eqv(r2.first, a.hdrs[0].first), eqv(r2.second, a.hdrs[0].second));
		w.init_again(0, "g", {r2}, "", nullptr, same);
		sym_reach(same ? "same" : "changed");
		w.eval(CL, w.add_job("k", {r2}, {"q"}));
	} else {
		w.eval(CL, w.add_job("k", {r2}, {"q"}));
		sym_reach("second");
	}
}
#endif
extern "C" void sym_main()
{
	sym_dir((int) sym_pick(2, "address-order"));
	world w(sym_pick(2, "manager"));
#if PART == 1
	texts(w);
#elif PART == 2
	many(w);
#elif PART == 3
	counters(w);
#elif PART == 5
	splits(w);
#else
	times(w);
#endif
}
