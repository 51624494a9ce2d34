// Scenario driver for the broker handler: N_WORKERS workers register, N_JOBS jobs arrive, then N_EVENTS arbitrary events of the kinds in EVS.
#include "broker.h"
#ifndef N_WORKERS
#define N_WORKERS 2
#endif
#ifndef N_JOBS
#define N_JOBS 2
#endif
#ifndef N_EVENTS
#define N_EVENTS 2
#endif
#ifndef EVS
#define EVS 0x1f
#endif
#ifndef MANAGER // 0 multi, 1 single, 2 both
#define MANAGER 2
#endif
#ifndef HDRS // 1: workers may announce another value of env, re-registrations may add and drop headers
#define HDRS 0
#endif
#ifndef MISM // 1: all kinds of reports that do not match, 0: some
#define MISM 0
#endif
#ifndef PFRAMES // most frames of progress messages
#define PFRAMES 1
#endif
#ifndef REQK // kinds of requirements: see mk_reqs
#define REQK 1
#endif
#ifndef PREK // kinds of requirements of the jobs of the prelude
#define PREK REQK
#endif
#ifndef LIMIT
#define LIMIT 3
#endif
#ifndef PAYLOAD // 1: arbitrary payloads
#define PAYLOAD 0
#endif
#ifndef MIDFAIL // 1: running jobs have failed an arbitrary number of times already, 2: all of them the same number, at least 2
#define MIDFAIL 0
#endif
#ifndef ORPHANS // 1: workers may announce a job they are already processing
#define ORPHANS 0
#endif
#ifndef DRAIN
#define DRAIN 1
#endif
#ifndef META // 1: metadata among the headers
#define META 0
#endif
#ifndef CLOCKS // 1: arbitrary progress of the clocks
#define CLOCKS 0
#endif
#ifndef SYMINT // 1: arbitrary ping interval and number of lives
#define SYMINT 0
#endif
#ifndef TICKDIG
#define TICKDIG 0
#endif
#ifndef DESCR // 1: workers may describe themselves
#define DESCR 0
#endif
#ifndef UNREG // 1: some jobs of the prelude may be unacceptable
#define UNREG 0
#endif
#ifndef VALLEN // arbitrary header values of up to this length (0: exactly one byte)
#define VALLEN 0
#endif
#ifndef STATS_END
#define STATS_END 0
#endif
enum { EVAL, OK, INTERNAL, FAILED, EXPIRE, QUIET, REINIT, REINIT_SAME, PING, PROGRESS, FREEZE, STATS, JUNK, INIT, MISMATCH, TICK, REJOIN, BADEVAL, NEV };
static const str ID[] = {str("\0A1", 3), str("\0A2", 3), str("\0A3", 3), str("\0A4", 3), str("\0A5", 3)};
static const str CL[] = {str("\0C", 2), str("client\0x", 8)};
static str S(const char *a, int n) { return str(a) + char('0' + n); }

#if CLOCKS
static long long steady_ns = 5000700000ll, wall_ns = 1700000000000000000ll;
extern "C" long long h_steady_now_ns() { static const long long d[] = {0, 400000, 1000000}; return steady_ns += d[sym_pick(CLOCKS, "steady-step")]; }
extern "C" long long h_system_now_ns() { static const long long d[] = {0, -3600000000000ll, 1000000}; return wall_ns += d[sym_pick(CLOCKS, "wall-step")]; }
#endif
static str val(const char *n) { return VALLEN ? sym_strn(0, VALLEN, n) : sym_str(1, n); }
static W mk_worker(world &, int i)
{
	W w;
	w.id = ID[i];
	w.hw = REQK >= 3 ? sym_str(1, "hw") : str("g");
	w.hdrs.push_back({"env", val("env")});
	if (REQK >= 4) w.hdrs.push_back({"threads", sym_digits(1, "threads")});
	if (HDRS && sym_pick(2, "second-env")) w.hdrs.push_back({"env", val("env2")});
	if (DESCR && sym_pick(2, "described")) w.desc = "a=b" + sym_str(1, "description");
	return w;
}
static hlist mk_reqs(uint32_t kinds)
{
	hlist r;
	switch (kinds > 1 ? sym_pick(kinds, "req") : 0) {
	case 0: r.push_back({"env", val("renv")}); break;
	case 1: break;
	case 2: r.push_back({"hwgroup", sym_str(1, "rhw")}); sym_assume(r[0].second[0] != '|'); break;
	case 3: r.push_back({"threads", sym_digits(1, "rthreads")}); break;
	case 4: r.push_back({"env", val("renv")}); r.push_back({"threads", sym_digits(1, "rthreads")}); break;
	case 5: r.push_back({"threads", sym_digits(1, "rthreads")}); r.push_back({"hwgroup", sym_str(1, "rhw")}); sym_assume(r[1].second[0] != '|'); break;
	case 6: r.push_back({"env", val("renv")}); r.push_back({"env", val("renv")}); break;
	case 7: r.push_back({sym_pick(2, "name") ? "metax" : "meta", val("renv")}); break;
	case 8: r.push_back({"hwgroup", sym_str(1, "rhw") + "|" + sym_str(1, "rhw")}); sym_assume(sym_and(r[0].second[0] != '|', r[0].second[2] != '|')); break;
	}
	return r;
}
static strs mk_payload(int j)
{
#if PAYLOAD
	(void) j;
	strs p;
	int n = (int) sym_pick(PAYLOAD + 1, "frames");
	for (int i = 0; i < n; i++) p.push_back(sym_strn(0, 2, "frame"));
	return p;
#else
	return {S("payload", j), "", "env=x"};
#endif
}
static int nextw = 0, nextj = 0, orphans = 0;
static str orphan_id[4];
static int new_worker(world &w)
{
	if (ORPHANS && orphans < 2 && sym_pick(2, "announces")) { orphan_id[orphans] = S("orphan", orphans); int o = orphans++; W x = mk_worker(w, nextw++); sym_reach("announced"); return w.init_new(x, &orphan_id[o]); }
	W x = mk_worker(w, nextw++);
	return w.init_new(x);
}
static bool new_job(world &w, bool must)
{
	int n = nextj++;
	int j = w.add_job(S("job", n), mk_reqs(n < N_JOBS ? PREK : REQK), mk_payload(n));
	if (must && w.n_capable(w.js[j].reqs) == 0) sym_kill();
	return w.eval(CL[n & 1], j, META && sym_pick(2, "meta") ? strs{"meta.env=none", "meta.=" + sym_str(1, "metaval")} : strs{});
}
static int pick_alive(world &w, const char *name)
{
	std::vector<int> a;
	for (size_t i = 0; i < w.ws.size(); i++) if (w.ws[i].alive) a.push_back((int) i);
	if (a.empty()) sym_kill();
	return a[a.size() > 1 ? sym_pick((uint32_t) a.size(), name) : 0];
}
static int pick_busy(world &w, const char *name)
{
	std::vector<int> a;
	for (size_t i = 0; i < w.ws.size(); i++) if (w.ws[i].alive && w.ws[i].job >= 0) a.push_back((int) i);
	if (a.empty()) sym_kill();
	return a[a.size() > 1 ? sym_pick((uint32_t) a.size(), name) : 0];
}
static worker_ptr record(world &w, int i)
{
	for (auto &p : w.reg->get_workers()) if (p->identity == w.ws[i].id) return p;
	return nullptr;
}
static void set_lives(world &w, int i, std::size_t n) { record(w, i)->liveness = n; w.ws[i].lives = n; }
static void midfail(world &w)
{
	for (auto &x : w.ws) if (x.alive && x.job >= 0 && w.js[x.job].complete) {
		static std::size_t same = 0;
		if (MIDFAIL == 2 && same == 0) same = 2 + sym_pick((uint32_t) w.config->failures - 2, "all-failed-before");
		std::size_t f = MIDFAIL == 2 ? same : sym_pick((uint32_t) w.config->failures, "failed-before");
		w.q->get_current_request(record(w, (int) (&x - &w.ws[0])))->failure_count = f;
		w.js[x.job].fails = f;
	}
}
static void event(world &w)
{
	std::vector<int> kinds;
	for (int i = 0; i < NEV; i++) if (EVS >> i & 1) kinds.push_back(i);
	switch (kinds[sym_pick((uint32_t) kinds.size(), "event")]) {
	case EVAL: new_job(w, false); break;
	case OK: { int i = pick_busy(w, "who"); w.done(w.ws[i].id, w.js[w.ws[i].job].id, 0, ""); break; }
	case INTERNAL: { int i = pick_busy(w, "who"); w.done(w.ws[i].id, w.js[w.ws[i].job].id, 1, "why & how=1"); break; }
	case FAILED: { int i = pick_busy(w, "who"); w.done(w.ws[i].id, w.js[w.ws[i].job].id, 2, sym_strn(0, 2, "why")); break; }
	case EXPIRE: {
		bool any = false;
		for (size_t i = 0; i < w.ws.size(); i++) if (w.ws[i].alive && sym_pick(2, "expires")) { set_lives(w, (int) i, 1); any = true; }
		if (!any) sym_kill();
		w.tick("1500", 1500);
		break;
	}
	case QUIET: w.tick("400", 400); break;
	case REINIT: {
		int i = pick_alive(w, "who");
		str cur;
		W n = w.ws[i];
		if (REQK >= 3 && sym_pick(2, "what")) { n.hw = sym_str(1, "hw2"); sym_assume(n.hw[0] != w.ws[i].hw[0]); }
		else if (HDRS && !n.hdrs.empty() && sym_pick(2, "drops")) { if (sym_pick(2, "all")) n.hdrs.clear(); else n.hdrs.pop_back(); sym_reach("reinit-drops"); }
		else if (HDRS && (n.hdrs.empty() || sym_pick(2, "adds"))) { n.hdrs.push_back({"zone", sym_str(1, "zone")}); sym_reach("reinit-adds"); }
		else { n.hdrs[0].second = sym_str(1, "env2"); sym_assume(n.hdrs[0].second[0] != w.ws[i].hdrs[0].second[0]); }
		const str *c = nullptr;
		switch (sym_pick(w.ws[i].job >= 0 ? 3 : 2, "announces")) {
		case 1: cur = S("orphan", orphans++); c = &cur; break;
		case 2: cur = w.js[w.ws[i].job].id; c = &cur; break;
		}
		if (DESCR) { n.desc = sym_pick(2, "described") ? str("a b") : str(""); w.swap_info = true; }
		w.init_again(i, n.hw, n.hdrs, n.desc, c, false);
		break;
	}
	case REINIT_SAME: { int i = pick_alive(w, "who"); w.init_again(i, w.ws[i].hw, w.ws[i].hdrs, w.ws[i].desc, nullptr, true); break; }
	case PING: w.ping(ID[sym_pick(N_WORKERS + 1, "who")]); break;
	case PROGRESS: { strs f; int n = (int) sym_pick(PFRAMES + 1, "frames"); for (int i = 0; i < n; i++) f.push_back(PFRAMES > 1 ? sym_strn(0, 2, "frame") : sym_str(1, "frame")); w.progress(ID[sym_pick(N_WORKERS + 1, "who")], f); break; }
	case FREEZE: w.freeze(CL[0], sym_pick(2, "on")); break;
	case STATS: w.stats(CL[1]); break;
	case JUNK: {
		// a request that would be valid if its command were known
		static const char *const cmd[] = {"eval", "freeze", "unfreeze", "get-runtime-stats", "init", "done", "ping", "progress"};
		int c = (int) sym_pick(8, "command");
		bool from_worker = c >= 4;
		str s = cmd[c];
		switch (sym_pick(6, "mutation")) {
		case 0: s += sym_str(1, "suffix"); break;
		case 1: s += sym_str(2, "suffix"); break;
		case 2: s = sym_str(1, "prefix") + s; break;
		case 3: s.pop_back(); break;
		case 4: { str x = sym_str(1, "other"); sym_assume(x[0] != s[0]); s[0] = x[0]; break; }
		case 5: from_worker = !from_worker; break; // known, but not to this side
		}
		str from = from_worker ? ID[c == 4 ? N_WORKERS : 0] : CL[1];
		str job = "jobx", env = w.ws.empty() || w.ws[0].hdrs.empty() ? str("e") : w.ws[0].hdrs[0].second;
		int me = w.find_w(from);
		if (me >= 0 && w.ws[me].job >= 0) job = w.js[w.ws[me].job].id;
		strs d = {s};
		if (c == 0) d.insert(d.end(), {job, "env=" + env, "", "payload"});
		if (c == 4) d.insert(d.end(), {"g", "env=" + env});
		if (c == 5) d.insert(d.end(), {job, "OK"});
		if (c == 7) d.push_back("x");
		w.junk(from_worker, from, d);
		break;
	}
	case TICK: {
#if TICKDIG
		str t = sym_digits(1 + sym_pick(TICKDIG, "digits"), "elapsed");
#else
		static const char *const el[] = {"1", "60", "250"};
		str t = el[sym_pick(3, "elapsed")];
#endif
		long long v = 0;
		for (char c : t) v = v * 10 + (c - '0');
		w.tick(t, v);
		break;
	}
	case BADEVAL: {
		strs d = {"eval"};
		int n = (int) sym_pick(4, "frames");
		for (int i = 0; i < n; i++) d.push_back(i == 0 ? str("jobx") : sym_pick(2, "kind") ? sym_str(1, "bytes") : "env=" + (w.ws[0].hdrs.empty() ? str("e") : w.ws[0].hdrs[0].second));
		w.bad_eval(CL[0], d);
		break;
	}
	case REJOIN: {
		int i = -1;
		for (size_t k = 0; k < w.ws.size(); k++) if (!w.ws[k].alive && w.find_w(w.ws[k].id) < 0) i = (int) k;
		if (i < 0) sym_kill();
		W n = w.ws[i];
		if (!n.hdrs.empty() && sym_pick(2, "changed")) n.hdrs[0].second = sym_str(1, "env3");
		w.init_new(n);
		sym_reach("rejoined");
		break;
	}
	case INIT: if (nextw >= 5) sym_kill(); new_worker(w); break;
	case MISMATCH: {
		// a report that does not match what the worker is processing
#if !MISM
		if (w.find_w(ID[0]) >= 0 && w.ws[w.find_w(ID[0])].job >= 0) w.done(ID[0], "other", (int) sym_pick(3, "status"), "m"); else w.done(ID[0], "job0", 0, "m");
		break;
#endif
		int st = (int) sym_pick(6, "status");
		int from = (int) sym_pick(N_WORKERS + 1, "who"), what = (int) sym_pick((uint32_t) nextj + (st < 3 ? 4 : 1), "job");
		int me = w.find_w(ID[from]);
		static const int len[] = {0, 3, 4, 5};
		str id = what < nextj ? S("job", what) : sym_str((size_t) len[what - nextj], "other"); // also every id of 3 to 5 bytes
		if (me >= 0 && w.ws[me].job >= 0 && w.js[w.ws[me].job].id == id && st < 3) sym_kill();
		w.done(ID[from], id, st, "m");
		break;
	}
	}
}
extern "C" void sym_main()
{
	sym_dir((int) sym_pick(2, "address-order"));
	bool single = MANAGER == 2 ? sym_pick(2, "manager") : MANAGER;
	world w(single);
	w.config->failures = LIMIT == 0 ? 1 + sym_pick(3, "limit") : LIMIT;
	if (SYMINT) { w.config->interval = sym_u16("interval"); sym_assume(w.config->interval <= SYMINT); w.config->liveness = 1 + sym_pick(2, "lives"); }
	for (int i = 0; i < N_WORKERS; i++) new_worker(w);
	for (int j = 0; j < N_JOBS; j++) new_job(w, !UNREG);
	if (MIDFAIL) midfail(w);
	for (int k = 0; k < N_EVENTS; k++) event(w);
	if (STATS_END) w.stats(CL[1]);
	if (DRAIN) w.drain();
	sym_reach("end");
}
