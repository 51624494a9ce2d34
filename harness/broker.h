// Environment and reference specification for the broker's message handler.
//
// The broker_handler (with a real worker_registry and a real queue manager) is driven through on_request only; every
// message it sends is captured and interpreted against an independent model of what must be true. Assertions carry
// the numbers of the properties they belong to; a check activates those of its own property. When behaviour has
// already left the specification of some other property the model follows what the broker did and goes on, unless
// it cannot make sense of it (AK): then the path ends.
#pragma once
#include "common.h"
#include "broker_connect.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "helpers/logger.h"
#include <chrono>
#include <memory>

#ifndef PROP
#define PROP 0
#endif
#ifndef LIMIT_MAX
#define LIMIT_MAX 3
#endif

inline bool mine(int a, int b = -1, int c = -1, int d = -1) { return PROP == 0 || a == PROP || b == PROP || c == PROP || d == PROP; }
// an assertion of the named properties; for the others the path goes on (A) or ends (AK)
#define A(cond, msg, ...) do { if (mine(__VA_ARGS__)) sym_assert((cond) ? 1 : 0, msg); } while (0)
#define AK(cond, msg, ...) do { if (mine(__VA_ARGS__)) sym_assert((cond) ? 1 : 0, msg); else if (!(cond)) { sym_reach("left-specification-of-other-property"); sym_kill(); } } while (0)
// the same for conditions built without forking
#define AN(cond, msg, ...) do { if (mine(__VA_ARGS__)) sym_assert(cond, msg); } while (0)

struct cfg : public broker_config {
	std::size_t liveness = 4, failures = 3;
	long long interval = 1000;
	std::size_t get_max_worker_liveness() const override { return liveness; }
	std::size_t get_max_request_failures() const override { return failures; }
	std::chrono::milliseconds get_worker_ping_interval() const override { return std::chrono::milliseconds(interval); }
};

using hlist = std::vector<std::pair<str, str>>;
struct W { // a registered worker as the specification sees it
	str id, hw, desc;
	hlist hdrs;
	bool alive = true;
	std::size_t lives = 0;
	long long timer = 0;
	int job = -1;
};
enum jstate { OUT, PEND, RUN, WAIT, GONE };
struct J {
	str id;
	hlist reqs;
	strs payload;
	bool complete = true;
	std::size_t fails = 0;
	jstate st = OUT;
	int w = -1; // running on
	int owner = -2; // multi queue: -2 unknown, otherwise the only worker whose queue it can be in
	unsigned since = 0, sub = 0; // arrival order: event number, order within it (0: not ordered within)
	bool incomp = false;
	int dw = -1; // the worker it was last taken out of the queue by, in which event, and since when it had been waiting then
	unsigned dev = 0, dsince = 0;
};

struct world {
	std::shared_ptr<cfg> config = std::make_shared<cfg>();
	std::shared_ptr<worker_registry> reg = std::make_shared<worker_registry>();
	std::shared_ptr<queue_manager_interface> q;
	std::unique_ptr<broker_handler> h;
	bool single = false, frozen = false;
	std::vector<W> ws;
	std::vector<J> js;
	std::vector<message_container> out;
	unsigned ev = 0;
	handler_interface::response_cb respond;
	// statistics
	std::size_t st_ok = 0, st_bad = 0, sn_workers = 0, sn_idle = 0, sn_prog = 0, sn_wait = 0;
	// what this event produced
	std::vector<int> ev_disp_w; // workers that got a job in this event
	std::vector<std::pair<int, str>> ev_final; // (job, status) with message in ev_msg
	strs ev_msg;
	std::vector<std::pair<int, int>> ev_mon; // (job, 0 ABORTED / 1 FAILED)
	std::vector<const message_container *> ev_client, ev_worker, ev_monraw, ev_err;

	world(bool s) : single(s)
	{
		if (single) q = std::make_shared<single_queue_manager<>>(); else q = std::make_shared<multi_queue_manager>();
		h.reset(new broker_handler(config, reg, q, helpers::create_null_logger()));
		respond = [this](const message_container &m) { out.push_back(m); };
	}

	// ---- specification of capability (C08 decides the details; here every header is a plain or a group header)
	int satisfies(const W &w, const hlist &reqs)
	{
		int r = 1;
		for (auto &q : reqs) {
			int any = 0;
			if (q.first == "hwgroup") { // alternatives of one byte each
				if (q.second.size() == 3) any = sym_or(eqv(q.second.substr(0, 1), w.hw), eqv(q.second.substr(2), w.hw));
				else any = eqv(q.second, w.hw);
			}
			for (auto &h : w.hdrs) if (h.first == q.first) any = sym_or(any, q.first == "threads" ? h.second[0] >= q.second[0] : eqv(h.second, q.second)); // one digit
			r = sym_and(r, any);
		}
		return r;
	}
	bool capable(int w, int j) { return satisfies(ws[w], js[j].reqs) ? true : false; }
	bool capable(int w, const hlist &reqs) { return satisfies(ws[w], reqs) ? true : false; }
	int n_capable(const hlist &reqs, int *only = nullptr)
	{
		int n = 0;
		for (size_t i = 0; i < ws.size(); i++) if (ws[i].alive && capable((int) i, reqs)) { n++; if (only) *only = (int) i; }
		return n;
	}
	int find_w(const str &id) { for (size_t i = 0; i < ws.size(); i++) if (ws[i].alive && ws[i].id == id) return (int) i; return -1; }
	int find_j(const str &id) { for (size_t i = 0; i < js.size(); i++) if (js[i].id == id && js[i].st != OUT) return (int) i; return -1; }
	std::size_t n_wait() { std::size_t n = 0; for (auto &j : js) n += j.st == WAIT; return n; }
	std::size_t n_alive() { std::size_t n = 0; for (auto &w : ws) n += w.alive; return n; }
	void set_waiting(int j, bool ordered, unsigned sub, bool incomparable)
	{
		J &x = js[j];
		x.st = WAIT; x.w = -1;
		if (ordered) { x.since = ev; x.sub = sub; x.incomp = incomparable; }
		int only = -2, n = n_capable(x.reqs, &only);
		x.owner = n == 1 ? only : -2;
	}
	// did a arrive before b, for certain?
	bool before(const J &a, const J &b)
	{
		if (a.since != b.since) return a.since < b.since;
		if (a.incomp || b.incomp) return false;
		return a.sub < b.sub;
	}

	// ---- running one event
	void deliver(const message_container &m)
	{
		ev++;
		out.clear();
		ev_disp_w.clear(); ev_final.clear(); ev_msg.clear(); ev_mon.clear();
		ev_client.clear(); ev_worker.clear(); ev_monraw.clear(); ev_err.clear();
		sym_tracev("event", ev);
		try {
			h->on_request(m, respond);
		} catch (...) {
			AK(false, "an exception escaped from the handling of a message", 12, 1, 5);
		}
		sym_tracev("outputs", out.size());
		for (auto &o : out) { trace_str(o.key.c_str(), o.identity); for (auto &f : o.data) trace_str("frame", f); }
	}
	void heard(int w) { if (w >= 0) { ws[w].lives = config->liveness; ws[w].timer = 0; } }

	// job j was sent to worker identity
	void on_dispatch(const message_container &m)
	{
		int w = find_w(m.identity);
		AK(w >= 0, "a job was sent to a worker that is not registered", 2, 1, 7, 19);
		AK(m.data.size() >= 2, "a job message without job identification was sent to a worker", 10, 3, 1);
		int j = find_j(m.data[1]);
		if (j < 0) {
			int o = -1;
			for (size_t i = 0; i < js.size(); i++) if (js[i].id == m.data[1]) o = (int) i;
			A(o >= 0, "a job was sent under an identifier that nobody submitted", 10);
			if (o >= 0) A(capable(w, o), "a job was sent to a worker that does not satisfy its requirements", 2);
			A(!frozen, "a job submitted to a frozen broker was sent to a worker", 18);
		}
		AK(j >= 0, "a job was sent that is not in the system", 1, 5, 6);
		J &x = js[j];
		A(x.st != GONE, "a job was sent to a worker after its final outcome was reported", 1, 6, 11);
		A(x.st != RUN, "a job was sent to a worker while another attempt at it is running", 1, 3);
		A(capable(w, j), "a job was sent to a worker that does not satisfy its requirements", 2);
		A(ws[w].job < 0, "a job was sent to a worker that has another job in progress", 3, 1);
		for (int k : ev_disp_w) A(k != w, "a worker was sent two jobs in one event", 3);
		A(x.fails < config->failures || x.fails == 0, "a job was sent again although its failures reached the limit", 6);
		strs want = {"eval", x.id};
		for (auto &p : x.payload) want.push_back(p);
		AN(eqvs(m.data, want), "the message sent to the worker is not exactly the command, the job id and the submitted payload", 10);
		// arrival order
		for (size_t k = 0; k < js.size(); k++) {
			if ((int) k == j || js[k].st != WAIT) continue;
			bool entitled = single ? capable(w, (int) k) : js[k].owner == w && capable(w, (int) k);
			if (!entitled) continue;
			bool earlier = x.st == WAIT ? before(js[k], x) : js[k].since < ev;
			A(!earlier, "a worker was given a job although one that arrived earlier was waiting for it", 9);
		}
		if (x.st == WAIT) {
			if (!single && x.since < ev)
				for (auto &b : js) if (b.dw == w && b.dev > x.since && b.dev < ev) A(b.dsince <= x.since, "a worker was given a job that had been queued for it after another one that was still waiting", 9);
			x.dw = w; x.dev = ev; x.dsince = x.since;
		}
		x.st = RUN; x.w = w; ws[w].job = j;
		ev_disp_w.push_back(w);
	}
	void on_status(const message_container &m)
	{
		str type, id, status, msg;
		bool has_msg = false;
		A(m.data.size() % 2 == 0, "a status notification is not a list of pairs", 11, 15);
		for (size_t i = 0; i + 1 < m.data.size(); i += 2) {
			if (m.data[i] == "type") type = m.data[i + 1];
			else if (m.data[i] == "id") id = m.data[i + 1];
			else if (m.data[i] == "status") status = m.data[i + 1];
			else if (m.data[i] == "message") { msg = m.data[i + 1]; has_msg = true; }
		}
		if (type == "error") { ev_err.push_back(&m); return; }
		A(type == "job-status", "a status notification of unknown type", 11);
		A(status == "OK" || status == "FAILED", "a job status that is neither OK nor FAILED", 11);
		int j = find_j(id);
		AK(j >= 0, "the frontend was told the outcome of a job that is not in the system", 11, 1);
		A(js[j].st != GONE, "the frontend was told the outcome of a job twice", 1, 11);
		if (status == "FAILED") A(has_msg, "a failure was reported without an explanation", 11);
		if (js[j].st == RUN && js[j].w >= 0) { if (ws[js[j].w].job == j) ws[js[j].w].job = -1; }
		js[j].st = GONE;
		ev_final.push_back({j, status});
		ev_msg.push_back(msg);
	}
	void on_monitor(const message_container &m, bool progress)
	{
		ev_monraw.push_back(&m);
		A(m.identity == "recodex-monitor", "a message for the monitor is not addressed to it", 20, 11, 5);
		if (progress) return;
		AK(m.data.size() == 2 && (m.data[1] == "ABORTED" || m.data[1] == "FAILED"), "an unknown message was sent to the monitor", 11, 20);
		int j = -1;
		for (size_t i = 0; i < js.size(); i++) if (js[i].id == m.data[0]) j = (int) i;
		AK(j >= 0, "the monitor was told about an unknown job", 11);
		ev_mon.push_back({j, m.data[1] == "FAILED"});
	}
	void interpret(bool progress = false)
	{
		for (auto &m : out) {
			if (m.key == broker_connect::KEY_WORKERS) {
				if (m.data.size() > 0 && m.data[0] == "eval") on_dispatch(m);
				else {
					AK(m.data.size() == 1, "a message that is neither a job nor a reply was sent to a worker", 3, 10, 19, 12);
					ev_worker.push_back(&m);
				}
			} else if (m.key == broker_connect::KEY_CLIENTS) ev_client.push_back(&m);
			else if (m.key == broker_connect::KEY_MONITOR) on_monitor(m, progress);
			else if (m.key == broker_connect::KEY_STATUS_NOTIFIER) on_status(m);
			else A(false, "a message was sent to an unknown destination", 11, 5, 12);
		}
	}
	int mon_count(int j, int failed) { int n = 0; for (auto &p : ev_mon) n += p.first == j && p.second == failed; return n; }
	int mon_any(int j) { int n = 0; for (auto &p : ev_mon) n += p.first == j; return n; }
	int final_idx(int j) { for (size_t i = 0; i < ev_final.size(); i++) if (ev_final[i].first == j) return (int) i; return -1; }
	void expect_no_clients() { A(ev_client.empty(), "a client was sent a message it did not ask for", 5, 12, 18); }
	void expect_no_worker_replies() { A(ev_worker.empty(), "a worker was sent a reply it did not ask for", 19, 12); }
	void expect_no_status() { A(ev_final.empty(), "the frontend was told an outcome although no job ended", 11, 1, 12, 6); }
	void expect_no_errors() { A(ev_err.empty(), "the frontend was sent an error although there was none", 11, 19); }
	void expect_no_monitor() { A(ev_monraw.empty(), "the monitor was sent a message although nothing happened to a job", 11, 20, 12); }
	void expect_no_dispatch() { A(ev_disp_w.empty(), "a job was sent although nothing became available", 12, 3, 1, 6); }
	void expect_silence() { expect_no_clients(); expect_no_worker_replies(); expect_no_status(); expect_no_errors(); expect_no_monitor(); expect_no_dispatch(); }

	// the real objects agree with the model
	void consistent()
	{
		auto &rw = reg->get_workers();
		A(rw.size() == n_alive(), "the registry does not hold exactly the registered workers", 19, 7, 12, 1);
		std::size_t idle = 0;
		for (size_t i = 0; i < ws.size(); i++) {
			if (!ws[i].alive) continue;
			worker_ptr p;
			int n = 0;
			for (auto &x : rw) if (x->identity == ws[i].id) { n++; p = x; }
			AK(n == 1, "there is not exactly one record of a registered worker", 19, 7, 1);
			AN(eqv(p->hwgroup, ws[i].hw), "the record of a worker does not hold the hardware group it announced", 19, 2);
			AN(eqv(p->description, ws[i].desc), "the record of a worker does not hold the description it announced", 19, 20);
			auto c = q->get_current_request(p);
			if (ws[i].job < 0) {
				A(c == nullptr, "a worker is considered busy although it has no job", 1, 4, 12, 19);
				idle++;
			} else {
				AK(c != nullptr, "a worker is considered idle although it has a job", 1, 3, 12, 19);
				A(c->data.get_job_id() == js[ws[i].job].id, "a worker is considered to process another job than it was given", 1, 3, 19, 12);
				A(c->failure_count == js[ws[i].job].fails, "the number of failed attempts of a job is wrong", 6);
				A(c->data.is_complete() == js[ws[i].job].complete, "the data of a job got lost", 1, 10, 19);
			}
		}
		A(q->get_queued_request_count() == n_wait(), "the number of waiting jobs is wrong", 1, 16, 12);
		// work conservation
		for (size_t i = 0; i < ws.size(); i++) {
			if (!ws[i].alive || ws[i].job >= 0) continue;
			for (size_t j = 0; j < js.size(); j++) {
				if (js[j].st != WAIT) continue;
				if (single) A(!capable((int) i, (int) j), "a worker idles while a job it can process is waiting", 4);
				else A(js[j].owner != (int) i, "a worker idles while a job is waiting in its queue", 4);
			}
		}
		for (size_t j = 0; j < js.size(); j++) {
			A(js[j].st != PEND, "a job disappeared without an outcome", 1);
			if (js[j].st == WAIT) A(n_capable(js[j].reqs) > 0, "a job is waiting although no registered worker can take it", 1, 11);
		}
	}

	// ---- events
	int add_job(const str &id, const hlist &reqs, const strs &payload)
	{
		J j; j.id = id; j.reqs = reqs; j.payload = payload;
		js.push_back(j);
		return (int) js.size() - 1;
	}
	// evaluation request; extra: frames (metadata) mixed among the headers
	bool eval(const str &client, int j, const strs &extra = {})
	{
		J &x = js[j];
		strs d = {"eval", x.id};
		for (auto &r : x.reqs) d.push_back(r.first + "=" + r.second);
		for (auto &e : extra) d.push_back(e);
		d.push_back("");
		for (auto &p : x.payload) d.push_back(p);
		bool ok = !frozen && n_capable(x.reqs) > 0;
		x.st = ok ? PEND : OUT;
		deliver(message_container(broker_connect::KEY_CLIENTS, client, d));
		AK(!out.empty() && out[0].key == broker_connect::KEY_CLIENTS && out[0].identity == client && out[0].data == strs{"ack"}, "an evaluation request is not acknowledged first", 5);
		interpret();
		AK(ev_client.size() == 2, "an evaluation request does not get exactly one answer after the acknowledgement", 5, 18);
		const message_container &a = *ev_client[1];
		A(a.identity == client, "an answer was sent to another client", 5);
		AK(a.data.size() >= 1 && (a.data[0] == "accept" || a.data[0] == "reject"), "the answer to an evaluation request is neither accept nor reject", 5, 18);
		bool acc = a.data[0] == "accept";
		if (ok) A(acc, "a job was rejected although the broker is not frozen and a worker is capable", 5, 18);
		else A(!acc, "a job was accepted although the broker is frozen or no worker is capable", 5, 18, 1);
		if (acc) A(a.data.size() == 1, "unexpected frames in an answer", 5);
		else A(a.data.size() >= 2 && !a.data[1].empty(), "a rejection without a reason", 5);
		if (acc) A(ev_monraw.empty(), "the monitor was told about a job that was just accepted", 11, 5);
		else {
			A(ev_disp_w.empty(), "a rejected job was sent to a worker", 5, 1, 18);
			if (!frozen) A(ev_mon.size() == 1 && ev_mon[0].first == j && ev_mon[0].second == 1, "the monitor was not told that a job without capable worker failed", 5);
		}
		expect_no_status(); expect_no_errors(); expect_no_worker_replies();
		A(ev_disp_w.size() <= 1, "one submission made several dispatches", 3, 1);
		if (js[j].st == PEND) set_waiting(j, true, 0, false);
		if (acc) { if (js[j].st == RUN) sym_reach("eval-dispatched"); else sym_reach("eval-waiting"); } else sym_reach(frozen ? "eval-frozen" : "eval-rejected");
		consistent();
		return acc;
	}
	// an evaluation request without the frame that ends the headers
	void bad_eval(const str &client, const strs &d)
	{
		deliver(message_container(broker_connect::KEY_CLIENTS, client, d));
		AK(!out.empty() && out[0].key == broker_connect::KEY_CLIENTS && out[0].identity == client && out[0].data == strs{"ack"}, "an evaluation request is not acknowledged first", 5);
		interpret();
		for (auto m : ev_client) A(m->identity == client && (m->data.empty() || m->data[0] != "accept"), "a malformed evaluation request was accepted", 5, 12);
		expect_no_dispatch(); expect_no_status(); expect_no_errors(); expect_no_worker_replies();
		sym_reach("eval-malformed");
		consistent();
	}
	bool swap_info = false;
	strs init_frames(const W &w, const str *cur)
	{
		strs d = {"init", w.hw};
		for (auto &x : w.hdrs) d.push_back(x.first + "=" + x.second);
		if (!w.desc.empty() || cur) d.push_back("");
		if (!w.desc.empty()) d.push_back("description=" + w.desc);
		if (cur) d.push_back("current_job=" + *cur);
		if (swap_info && !w.desc.empty() && cur) std::swap(d[d.size() - 1], d[d.size() - 2]);
		return d;
	}
	int orphan(const str &id)
	{
		J o; o.id = id; o.complete = false; o.st = RUN;
		js.push_back(o);
		return (int) js.size() - 1;
	}
	// registration of a worker that is not registered
	int init_new(W w, const str *cur = nullptr)
	{
		w.alive = true; w.lives = config->liveness; w.timer = 0; w.job = -1;
		ws.push_back(w);
		int i = (int) ws.size() - 1;
		if (cur) { int o = orphan(*cur); js[o].w = i; ws[i].job = o; }
		deliver(message_container(broker_connect::KEY_WORKERS, w.id, init_frames(w, cur)));
		interpret();
		expect_no_clients(); expect_no_worker_replies(); expect_no_status(); expect_no_errors(); expect_no_monitor();
		for (int k : ev_disp_w) A(k == i, "the registration of a worker made a job go to another one", 3, 19);
		if (!ev_disp_w.empty()) sym_reach("init-got-job");
		// in the multi queue a newcomer takes nothing over; in the single queue consistent() demands it is not idle
		consistent();
		return i;
	}
	// registration of an already registered worker
	void init_again(int i, const str &hw, const hlist &hdrs, const str &desc, const str *cur, bool same)
	{
		W old = ws[i];
		W nw = old;
		nw.hw = hw; nw.hdrs = hdrs; nw.desc = desc;
		strs d = init_frames(nw, cur);
		heard(i);
		if (same) {
			deliver(message_container(broker_connect::KEY_WORKERS, old.id, d));
			interpret();
			expect_silence();
			sym_reach("reinit-same");
			consistent();
			return;
		}
		int lost = -1;
		ws[i] = nw;
		ws[i].lives = config->liveness; ws[i].timer = 0;
		std::vector<int> affected;
		int curj = old.job;
		if (curj >= 0) {
			if (cur && js[curj].id == *cur) sym_reach("reinit-keeps-job");
			else { lost = curj; ws[i].job = -1; js[curj].st = PEND; js[curj].w = -1; js[curj].fails++; }
		}
		if (cur && (curj < 0 || lost >= 0)) { int o = orphan(*cur); js[o].w = i; ws[i].job = o; }
		// waiting jobs whose only possible place was the old record
		waiting_before.clear();
		for (size_t k = 0; k < js.size(); k++) if (js[k].st == WAIT) waiting_before.push_back((int) k);
		deliver(message_container(broker_connect::KEY_WORKERS, old.id, d));
		pre_move(i);
		interpret();
		expect_no_clients(); expect_no_worker_replies();
		A(ev_err.size() == 1, "a conflicting registration was not reported to the frontend", 19);
		after_loss({i}, lost >= 0 ? std::vector<int>{lost} : std::vector<int>{}, false);
		sym_reach("reinit-changed");
		consistent();
	}
	std::vector<int> waiting_before;
	// jobs the monitor is told were aborted although they were only waiting were moved to another queue: they queue up anew
	void pre_move(int)
	{
		unsigned sub = 0;
		if (single) return;
		for (auto &m : out) {
			if (m.key != broker_connect::KEY_MONITOR || m.data.size() != 2 || m.data[1] != "ABORTED") continue;
			for (int k : waiting_before) if (js[k].id == m.data[0]) { js[k].owner = -3; (void) sub; }
		}
	}
	// after the workers in gone lost their records: lost = jobs they were processing (already counted as failed)
	void after_loss(const std::vector<int> &gone, const std::vector<int> &lost, bool expiry)
	{
		for (int j : lost) {
			J &x = js[j];
			int f = final_idx(j);
			bool can = n_capable(x.reqs) > 0;
			if (!x.complete || x.fails >= config->failures || !can) {
				AK(f >= 0, "a job that cannot be tried again was not reported to the frontend", 11, 1, 6);
				A(ev_final[f].second == "FAILED", "a job that was lost with its worker was reported as successful", 11);
				A(mon_count(j, 1) == 1 && mon_count(j, 0) == 0, "the monitor was not told that a job failed", 11, 6);
				sym_reach(!x.complete ? "loss-orphan" : x.fails >= config->failures ? "loss-limit" : "loss-nobody");
			} else {
				A(f < 0, "a job was given up although its failures are below the limit and a worker is capable", 6, 11, 1);
				A(mon_count(j, 0) == 1 && mon_count(j, 1) == 0, "the monitor was not told that a job was aborted", 11);
				if (x.st == PEND) { set_waiting(j, true, 0, true); sym_reach("loss-requeued"); } else sym_reach("loss-redispatched");
			}
		}
		std::vector<unsigned> rank(js.size(), 0); // jobs that change the queue keep their order
		for (int j : waiting_before) { rank[j] = 1; for (int k : waiting_before) rank[j] += before(js[k], js[j]); }
		for (int j : waiting_before) {
			J &x = js[j];
			int f = final_idx(j);
			bool can = n_capable(x.reqs) > 0;
			bool owned = false;
			for (int g : gone) if (x.owner == g) owned = true;
			bool moved = x.owner == -3;
			if (!can) {
				AK(f >= 0, "a waiting job that nobody can process any more was not reported to the frontend", 11, 1);
				A(ev_final[f].second == "FAILED", "a waiting job that nobody can process any more was reported as successful", 11);
				A(mon_count(j, 1) == 1 && mon_count(j, 0) == 0, "the monitor was not told that a waiting job failed", 11);
				sym_reach("loss-waiting-nobody");
			} else {
				A(f < 0, "a waiting job was given up although a worker is capable", 11, 1, 6);
				if (expiry && owned && !single) A(mon_count(j, 0) == 1, "the monitor was not told that a waiting job was aborted", 11);
				A(mon_any(j) <= 1 && mon_count(j, 1) == 0, "the monitor was told wrongly about a waiting job", 11);
				if (moved) sym_reach("loss-waiting-moved");
				if (moved && x.st == WAIT) set_waiting(j, true, rank[j], gone.size() > 1 || x.incomp);
			}
		}
		for (auto &p : ev_final) {
			bool known = false;
			for (int j : lost) known |= j == p.first;
			for (int j : waiting_before) known |= j == p.first;
			A(known, "an outcome was reported for a job that did not end", 11, 1);
		}
		for (auto &p : ev_mon) {
			bool known = false;
			for (int j : lost) known |= j == p.first;
			for (int j : waiting_before) known |= j == p.first;
			A(known, "the monitor was told about a job nothing happened to", 11);
		}
		A(ev_mon.size() == ev_monraw.size(), "unknown message to the monitor", 11);
	}
	void tick(const str &text, long long ms)
	{
		std::vector<int> gone, lost;
		for (size_t i = 0; i < ws.size(); i++) {
			if (!ws[i].alive) continue;
			ws[i].timer += ms;
			if (ws[i].timer > config->interval) {
				ws[i].lives--; ws[i].timer = 0;
				if (ws[i].lives == 0) gone.push_back((int) i);
			}
		}
		waiting_before.clear();
		for (size_t k = 0; k < js.size(); k++) if (js[k].st == WAIT) waiting_before.push_back((int) k);
		for (int g : gone) {
			ws[g].alive = false;
			if (ws[g].job >= 0) { int j = ws[g].job; lost.push_back(j); js[j].fails++; js[j].st = PEND; js[j].w = -1; ws[g].job = -1; }
		}
		std::vector<std::weak_ptr<worker>> weak;
		for (auto &p : reg->get_workers()) for (int g : gone) if (p->identity == ws[g].id) weak.push_back(p);
		deliver(message_container(broker_connect::KEY_TIMER, "", {text}));
		for (auto &x : weak) A(x.expired(), "the record of an expired worker is still kept somewhere", 7);
		pre_move(-1);
		interpret();
		expect_no_clients(); expect_no_worker_replies(); expect_no_errors();
		if (gone.empty()) {
			expect_no_status(); expect_no_monitor(); expect_no_dispatch();
			sym_reach("tick-quiet");
		} else { after_loss(gone, lost, true); sym_reach(gone.size() > 1 ? "tick-expired-several" : "tick-expired"); }
		consistent();
		sn_workers = n_alive(); sn_idle = 0; sn_prog = 0;
		for (auto &w : ws) if (w.alive) { if (w.job < 0) sn_idle++; else sn_prog++; }
		sn_wait = n_wait();
	}
	// completion report; status 0 OK, 1 INTERNAL_ERROR, 2 FAILED, 3 another one, 4 INTERNAL_ERROR malformed, 5 FAILED malformed
	void done(const str &from, const str &id, int status, const str &msg)
	{
		static const char *names[] = {"OK", "INTERNAL_ERROR", "FAILED", "FINE", "INTERNAL_ERROR", "FAILED"};
		strs d = {"done", id, names[status]};
		if (status == 1 || status == 2) d.push_back(msg);
		if (status == 5 || status == 4) { if (msg.size() & 1) { d.push_back(msg); d.push_back(msg); } }
		int w = find_w(from);
		heard(w);
		int j = w >= 0 ? ws[w].job : -1;
		bool match = j >= 0 && js[j].id == id;
		waiting_before.clear();
		if (!match || status > 2) {
			deliver(message_container(broker_connect::KEY_WORKERS, from, d));
			interpret();
			expect_silence();
			sym_reach(match ? "done-unknown-status" : "done-mismatch");
			consistent();
			return;
		}
		ws[w].job = -1;
		js[j].st = PEND; js[j].w = -1;
		if (status) js[j].fails++;
		deliver(message_container(broker_connect::KEY_WORKERS, from, d));
		// the report about the finished job comes first for the model even if the broker sends the next job earlier
		interpret();
		expect_no_clients(); expect_no_worker_replies(); expect_no_errors();
		int f = final_idx(j);
		if (status == 0) {
			st_ok++;
			A(f >= 0 && ev_final[f].second == "OK", "a successful job was not reported as successful", 11, 1);
			A(ev_final.size() == 1, "an outcome was reported for a job that did not end", 11, 1);
			expect_no_monitor();
			sym_reach("done-ok");
		} else if (status == 2) {
			st_bad++;
			A(f >= 0 && ev_final[f].second == "FAILED", "a job its worker reported as failed was not reported to the frontend as failed", 11, 6, 1);
			if (f >= 0) AN(eqv(ev_msg[f], msg), "the worker's explanation of a failure was not passed on", 11);
			A(ev_final.size() == 1, "an outcome was reported for a job that did not end", 11, 1);
			expect_no_monitor();
			sym_reach("done-failed");
		} else {
			st_bad++;
			J &x = js[j];
			bool can = n_capable(x.reqs) > 0;
			bool over = x.fails >= config->failures;
			if (!x.complete || over || !can) {
				A(f >= 0 && ev_final[f].second == "FAILED", "a job that is not tried again was not reported as failed", 11, 6, 1);
				if (f >= 0) A(contains(ev_msg[f], msg), "the explanation of the last failure was not passed on", 11);
				A(ev_final.size() == 1, "an outcome was reported for a job that did not end", 11, 1);
				if (x.complete) A(ev_mon.size() == 1 && mon_count(j, 1) == 1, "the monitor was not told that a job was given up", 6, 11);
				sym_reach(!x.complete ? "internal-orphan" : over ? "internal-limit" : "internal-nobody");
			} else {
				A(f < 0 && ev_final.empty(), "a job was given up before its failures reached the limit", 6, 11, 1);
				A(ev_monraw.empty(), "the monitor was told about an outcome although the job is tried again", 11);
				if (js[j].st == PEND) { set_waiting(j, true, 0, false); sym_reach("internal-requeued"); } else sym_reach("internal-redispatched");
			}
		}
		consistent();
	}
	static bool contains(const str &a, const str &b) { return a.find(b) != str::npos; }
	void ping(const str &id)
	{
		int w = find_w(id);
		heard(w);
		deliver(message_container(broker_connect::KEY_WORKERS, id, {"ping"}));
		interpret();
		expect_no_clients(); expect_no_status(); expect_no_errors(); expect_no_monitor(); expect_no_dispatch();
		AK(ev_worker.size() == 1 && ev_worker[0]->identity == id, "a ping was not answered to its sender", 19);
		A(!ev_worker[0]->data.empty() && ev_worker[0]->data[0] == (w >= 0 ? "pong" : "intro"), "a ping was answered wrongly", 19, 7);
		sym_reach(w >= 0 ? "ping-known" : "ping-unknown");
		consistent();
	}
	void progress(const str &id, const strs &frames)
	{
		heard(find_w(id));
		strs d = {"progress"};
		for (auto &f : frames) d.push_back(f);
		deliver(message_container(broker_connect::KEY_WORKERS, id, d));
		interpret(true);
		expect_no_clients(); expect_no_status(); expect_no_errors(); expect_no_worker_replies(); expect_no_dispatch();
		if (frames.empty()) {
			A(ev_monraw.empty(), "a progress message without content was forwarded", 20, 12);
			sym_reach("progress-empty");
		} else {
			A(ev_monraw.size() == 1, "a progress message was not forwarded exactly once", 20);
			AN(eqvs(ev_monraw[0]->data, frames), "a progress message was not forwarded unchanged", 20);
			sym_reach("progress");
		}
		consistent();
	}
	void freeze(const str &client, bool on)
	{
		deliver(message_container(broker_connect::KEY_CLIENTS, client, {on ? "freeze" : "unfreeze"}));
		frozen = on;
		interpret();
		A(out.size() == 1 && ev_client.size() == 1 && ev_client[0]->identity == client && ev_client[0]->data == strs{"ack"}, "a freeze or unfreeze request was not just acknowledged to its sender", 18);
		sym_reach(on ? "freeze" : "unfreeze");
		consistent();
	}
	void stats(const str &client)
	{
		deliver(message_container(broker_connect::KEY_CLIENTS, client, {"get-runtime-stats"}));
		interpret();
		AK(out.size() == 1 && ev_client.size() == 1 && ev_client[0]->identity == client, "statistics were not sent to the requesting client only", 16);
		const strs &d = ev_client[0]->data;
		A(d.size() % 2 == 0, "statistics are not a list of pairs", 16);
		auto want = [&](const char *name, std::size_t v) {
			int n = 0; str got;
			for (size_t i = 0; i + 1 < d.size(); i += 2) if (d[i] == name) { n++; got = d[i + 1]; }
			A(n == 1, "a statistic is missing or given twice", 16);
			A(got == std::to_string(v), "a statistic is wrong", 16, 18);
		};
		want("evaluated-jobs", st_ok); want("failed-jobs", st_bad); want("worker-count", sn_workers); want("idle-worker-count", sn_idle);
		want("jobs-in-progress", sn_prog); want("queued-jobs", sn_wait); want("is-frozen", frozen);
		sym_reach("stats");
		consistent();
	}
	// a message that must change nothing
	void junk(bool from_worker, const str &id, const strs &d, bool silent = false)
	{
		if (from_worker) heard(find_w(id));
		deliver(message_container(from_worker ? broker_connect::KEY_WORKERS : broker_connect::KEY_CLIENTS, id, d));
		for (auto &m : out) {
			A(!(m.key == broker_connect::KEY_WORKERS && !m.data.empty() && m.data[0] == "eval"), "a message that is not a valid request made a job go to a worker", 12);
			if (m.key == broker_connect::KEY_CLIENTS) A(m.data.empty() || m.data[0] != "accept", "a malformed request was accepted", 12, 5);
		}
		if (silent) A(out.empty(), "a message that is not a valid request was answered", 12);
		sym_reach("junk");
		consistent();
	}

	// ---- end of a path: empty the queue manager, every job has to be in exactly one place
	void drain()
	{
		if (!mine(1, 4)) return;
		std::vector<int> seen(js.size(), 0);
		std::vector<worker_ptr> rw = reg->get_workers();
		for (auto &p : rw) {
			int w = find_w(p->identity);
			auto c = q->get_current_request(p);
			auto r = q->worker_terminated(p);
			AK(r != nullptr, "worker_terminated returned nothing", 1);
			if (!single && c == nullptr) A(r->empty(), "a worker idles while jobs are waiting in its queue", 4);
			for (auto &x : *r) {
				AK(x != nullptr, "a waiting job is empty", 1);
				int j = -1;
				for (size_t k = 0; k < js.size(); k++) if (js[k].id == x->data.get_job_id() && (js[k].st == RUN || js[k].st == WAIT)) j = (int) k;
				AK(j >= 0, "a job is still held although it left the system", 1);
				seen[j]++;
				if (x == c) A(js[j].st == RUN && js[j].w == w, "a job is held as running by a worker it was not sent to", 1);
				else A(js[j].st == WAIT, "a running job is also waiting", 1, 3);
				A(x->failure_count == js[j].fails, "the number of failed attempts of a job is wrong", 6);
			}
		}
		for (size_t j = 0; j < js.size(); j++)
			if (js[j].st == RUN || js[j].st == WAIT) A(seen[j] == 1, "a job in the system is not held in exactly one place", 1);
			else A(seen[j] == 0, "a job that left the system is still held", 1);
		sym_reach("drained");
	}
};
