// C18: two brokers get the same messages, one of them is frozen and unfrozen in between and does not get the
// submissions that are rejected meanwhile answered; everything else both of them send has to be the same.
#include "broker.h"
#ifndef N_WORKERS
#define N_WORKERS 2
#endif
#ifndef N_JOBS
#define N_JOBS 2
#endif
#ifndef N_EVENTS
#define N_EVENTS 3
#endif
#ifndef MORE
#define MORE 0
#endif
struct side {
	std::shared_ptr<cfg> config = std::make_shared<cfg>();
	std::shared_ptr<worker_registry> reg = std::make_shared<worker_registry>();
	std::shared_ptr<queue_manager_interface> q;
	std::unique_ptr<broker_handler> h;
	std::vector<message_container> out;
	side(bool single)
	{
		if (single) q = std::make_shared<single_queue_manager<>>(); else q = std::make_shared<multi_queue_manager>();
		h.reset(new broker_handler(config, reg, q, helpers::create_null_logger()));
		config->failures = 2;
		if (MORE == 2) config->liveness = 2;
	}
	void give(const message_container &m)
	{
		out.clear();
		h->on_request(m, [this](const message_container &r) { out.push_back(r); });
	}
};
static side *F, *N; // sometimes frozen, never frozen
static bool frozen;
static int same(const strs &a, const strs &b) { return eqvs(a, b); }
static void compare(bool stats = false)
{
	sym_tracev("outputs", F->out.size());
	sym_assert(F->out.size() == N->out.size(), "freezing changed how many messages an event other than a submission causes");
	for (size_t i = 0; i < F->out.size(); i++) {
		auto &a = F->out[i], &b = N->out[i];
		trace_str("to", a.identity);
		strs x = a.data, y = b.data;
		if (stats) for (auto *d : {&x, &y}) for (size_t k = 0; k + 1 < d->size(); k += 2) if ((*d)[k] == "is-frozen") (*d)[k + 1] = "?";
		sym_assert(a.key == b.key && a.identity == b.identity ? same(x, y) : 0, "freezing changed a message an event other than a submission causes");
	}
}
static void both(const message_container &m, bool stats = false) { F->give(m); N->give(m); compare(stats); }
static str S(const char *a, int n) { return str(a) + char('0' + n); }
static int nextj;
static void submit(bool must)
{
	int n = nextj++;
	strs d = {"eval", S("job", n)};
	switch (n < N_JOBS ? 2 : sym_pick(4, "requirements")) {
	case 0: break;
	case 1: d.push_back("meta.x=" + sym_str(1, "renv")); break;
	case 2: d.push_back("env=" + sym_str(1, "renv")); break;
	case 3: d.push_back("env=" + sym_str(1, "renv")); d.push_back("hwgroup=g"); break;
	}
	d.push_back("");
	if (n != N_JOBS) d.push_back("payload");
	message_container m(broker_connect::KEY_CLIENTS, "client", d);
	if (frozen) {
		F->give(m);
		bool rejected = false;
		for (auto &r : F->out) {
			sym_assert(r.key == broker_connect::KEY_CLIENTS && r.identity == "client", "a submission to a frozen broker made it send something to somebody else");
			sym_assert(r.data.at(0) == "ack" || r.data.at(0) == "reject", "a frozen broker did not reject a submission");
			if (r.data.at(0) == "reject") rejected = true;
		}
		sym_assert(rejected, "a frozen broker did not reject a submission");
		sym_reach("rejected");
	} else {
		both(m);
		bool accepted = false;
		for (auto &r : F->out) if (r.key == broker_connect::KEY_CLIENTS && r.data.at(0) == "accept") accepted = true;
		if (must && !accepted) sym_kill();
		if (accepted) sym_reach("accepted");
	}
}
static str busy_job(const str &id)
{
	auto p = N->reg->find_worker_by_identity(id);
	auto c = p ? N->q->get_current_request(p) : nullptr;
	if (!c) sym_kill();
	return c->data.get_job_id();
}
extern "C" void sym_main()
{
	sym_dir((int) sym_pick(2, "address-order"));
	bool single = sym_pick(2, "manager");
	F = new side(single);
	N = new side(single);
	int nw = 0;
	auto reg = [&]() { str e = sym_str(1, "env"); both(message_container(broker_connect::KEY_WORKERS, S("w", nw++), {"init", "g", "env=" + e})); };
	for (int i = 0; i < N_WORKERS; i++) reg();
	for (int j = 0; j < N_JOBS; j++) submit(true);
	F->give(message_container(broker_connect::KEY_CLIENTS, "client", {"freeze"}));
	frozen = true;
	sym_assert(F->out.size() == 1 && F->out[0].identity == "client" && F->out[0].data == strs{"ack"}, "a freeze request was not just acknowledged");
	for (int k = 0; k < N_EVENTS; k++) {
		static const int timed[] = {1, 2, 9, 10};
		switch (MORE == 2 ? timed[sym_pick(4, "event")] : (int) sym_pick(MORE ? 10 : 7, "event")) {
		case 10: { // time goes by
			size_t before = N->reg->get_workers().size();
			both(message_container(broker_connect::KEY_TIMER, "", {sym_pick(2, "long") ? "1100" : "600"}));
			sym_assert(F->reg->get_workers().size() == N->reg->get_workers().size(), "freezing changed which workers expire");
			sym_reach(N->reg->get_workers().size() < before ? "silent" : "not-silent");
			break;
		}
		case 0: submit(false); break;
		case 1: {
			frozen = sym_pick(2, "on");
			F->give(message_container(broker_connect::KEY_CLIENTS, "client", {frozen ? "freeze" : "unfreeze"}));
			sym_assert(F->out.size() == 1 && F->out[0].identity == "client" && F->out[0].data == strs{"ack"}, "a freeze or unfreeze request was not just acknowledged");
			sym_reach(frozen ? "freeze" : "unfreeze");
			break;
		}
		case 2: { str w = S("w", (int) sym_pick((uint32_t) nw, "who")); both(message_container(broker_connect::KEY_WORKERS, w, {"done", busy_job(w), "OK"})); sym_reach("ok"); break; }
		case 3: { str w = S("w", (int) sym_pick((uint32_t) nw, "who")); both(message_container(broker_connect::KEY_WORKERS, w, {"done", busy_job(w), "INTERNAL_ERROR", "why"})); sym_reach("internal"); break; }
		case 4: { str w = S("w", (int) sym_pick((uint32_t) nw, "who")); both(message_container(broker_connect::KEY_WORKERS, w, {"done", busy_job(w), "FAILED", "why"})); sym_reach("failed"); break; }
		case 5: {
			bool any = false;
			for (int i = 0; i < nw; i++) if (auto p = F->reg->find_worker_by_identity(S("w", i))) if (sym_pick(2, "expires")) { p->liveness = 1; N->reg->find_worker_by_identity(S("w", i))->liveness = 1; any = true; }
			if (!any) sym_kill();
			both(message_container(broker_connect::KEY_TIMER, "", {"1500"}));
			sym_reach("expired");
			break;
		}
		case 6: {
			both(message_container(broker_connect::KEY_CLIENTS, "client", {"get-runtime-stats"}), true);
			strs &d = F->out.at(0).data;
			bool told = false;
			for (size_t i = 0; i + 1 < d.size(); i += 2) if (d[i] == "is-frozen") told = d[i + 1] == (frozen ? "1" : "0");
			sym_assert(told, "the frozen state is not told truthfully");
			sym_reach("stats");
			break;
		}
		case 7: if (nw < 4) reg(); break;
		case 8: { str e = sym_str(1, "env"); both(message_container(broker_connect::KEY_WORKERS, S("w", (int) sym_pick((uint32_t) nw, "who")), {"init", "g", "env=" + e})); sym_reach("registered-again"); break; }
		case 9: { str w = S("w", (int) sym_pick((uint32_t) nw, "who")); both(message_container(broker_connect::KEY_WORKERS, w, {sym_pick(2, "ping") ? "ping" : "progress", "x"})); break; }
		}
	}
	// after unfreezing, submissions are judged on the availability of workers alone
	if (frozen) { F->give(message_container(broker_connect::KEY_CLIENTS, "client", {"unfreeze"})); frozen = false; }
	submit(false);
	sym_reach("end");
}
