// C24: what the broker holds depends on its workers and unfinished jobs, not on what it has done before.
#ifndef PART // 1 the message handler, 2 the whole broker
#define PART 1
#endif
#ifndef CYCLES
#define CYCLES 20
#endif
#if PART == 2
#include "zstub.h"
#include "curlstub.h"
#include "yamlh.h"
#endif
#include "common.h"
#include "broker_connect.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "helpers/logger.h"
static str N(const char *a, int n) { return str(a) + char('0' + n / 100 % 10) + char('0' + n / 10 % 10) + char('0' + n % 10); }
// the most held after any of the first CYCLES repetitions against the least held after the last few of as many more (containers
// may hold a bit more or less from time to time)
static uint64_t most[2], least[2];
static void measure(int cycle)
{
	for (int k = 0; k < 2; k++) {
		uint64_t n = sym_live(k);
		if (cycle < CYCLES && n > most[k]) most[k] = n;
		if (cycle == CYCLES * 5 / 3 || (cycle > CYCLES * 5 / 3 && n < least[k])) least[k] = n;
	}
	if (cycle == 2 * CYCLES - 1) {
		sym_assert(least[0] <= most[0], "finished work leaves objects behind");
		sym_assert(least[1] <= most[1], "finished work leaves memory behind");
		sym_reach("measured");
	}
}
#if PART == 1
struct cfg : public broker_config {
	std::size_t get_max_worker_liveness() const override { return 2; }
	std::size_t get_max_request_failures() const override { return 2; }
	std::chrono::milliseconds get_worker_ping_interval() const override { return std::chrono::milliseconds(1000); }
};
struct run_ { str worker, job; };
static broker_handler *H;
static std::vector<run_> *running; // what the workers are doing, as far as they know
static int accepted, finals;
static void msg(const char *key, const str &id, const strs &data)
{
	message_container m(key, id, data);
	H->on_request(m, [](const message_container &o) {
		if (o.key == "workers" && o.data.size() > 1 && o.data[0] == "eval") running->push_back({o.identity, o.data[1]});
		if (o.key == "clients" && o.data.size() && o.data[0] == "accept") accepted++;
		if (o.key == "status_notifier") finals++;
	});
}
static void init(const str &id, const str &hw, const strs &more = {}) { strs d = {"init", hw}; for (auto &x : more) d.push_back(x); msg("workers", id, d); }
static void eval(const str &job, const str &req) { strs d = {"eval", job}; if (req.size()) d.push_back(req); d.push_back(""); d.push_back("payload"); msg("clients", "K", d); }
static void done(size_t i, const char *status) { run_ r = (*running)[i]; running->erase(running->begin() + i); msg("workers", r.worker, {"done", r.job, status, ""}); }
static void drain() { for (int n = 0; !running->empty(); n++) { if (n > 60) sym_fail("jobs do not end"); done(0, "OK"); } }
static void lost(const str &id) { for (size_t i = 0; i < running->size(); ) if ((*running)[i].worker == id) running->erase(running->begin() + i); else i++; }
static void tick() { msg("timer", "", {"1100"}); }
static void ping(const str &id) { msg("workers", id, {"ping"}); }
// everybody but the given worker shows signs of life while time passes
static void expire(const str &id) { for (int n = 0; n < 4; n++) { if (id != "A") ping("A"); if (id != "B") ping("B"); tick(); } lost(id); }
enum { KINDS = 13 };
static str *R, *X; // an arbitrary requirement, an arbitrary byte in names
static void work(int kind, int c, uint32_t v)
{
	str a = N("a", c) + *X, b = N("b", c) + *X, d = N("c", c) + *X, e = N("w", c) + *X;
	switch (kind) {
	case 0: eval(a, *R); drain(); break;
	case 1: eval(a, ""); if (running->size()) done(0, "FAILED"); drain(); break;
	case 2: eval(a, *R); for (int n = 0; n < 8 && !running->empty(); n++) done(0, "INTERNAL_ERROR"); drain(); break;
	case 3: eval(a, "env=none"); drain(); break;
	case 4: eval(a, ""); eval(b, ""); eval(d, ""); expire("A"); init("A", "g", {"env=c"}); drain(); break;
	case 5: init(e, "h", {"env=x"}); drain(); expire(e); break;
	case 6: init(e, "h", {"only=" + (v ? e : *X)}); eval(a, "only=" + (v ? e : *X)); if (v) done(running->size() - 1, "OK"); eval(b, "only=" + (v ? e : *X)); expire(e); drain(); break;
	case 7: eval(a, *R); eval(b, ""); init("A", "g", {"env=" + e}); lost("A"); drain(); init("A", "g", {"env=c"}); drain(); break;
	case 8: msg("workers", e, {"ping"}); msg("workers", e, {*X, a}); msg("clients", e, {*X + "x"}); msg("clients", e, {"eval", a}); msg("workers", "A", {"done", a, "OK", ""}); msg("workers", e, {"done", a, "OK", ""}); msg("workers", e, {"progress", a, "x"}); msg("workers", "B", {"progress", b, "x"}); msg("clients", e, {"get-runtime-stats"}); msg("workers", e, {"init"}); break;
	case 9: msg("clients", e, {"freeze"}); eval(a, ""); msg("clients", e, {"unfreeze"}); drain(); break;
	case 10: eval(a, *R); eval(b, "env=c"); eval(d, ""); eval(N("d", c), ""); drain(); break;
	case 11: init(e, "h", {"env=y", "", "current_job=" + a, "description=" + b}); if (v) msg("workers", e, {"done", a, "INTERNAL_ERROR", "x"}); expire(e); drain(); break;
	case 12: eval(a, ""); eval(b, ""); eval(d, "env=c"); for (int n = 0; n < 5; n++) tick(); running->clear(); init("A", "g", {"env=c"}); init("B", "g", {"env=c"}); drain(); break;
	}
}
extern "C" void sym_main()
{
	running = new std::vector<run_>();
	running->reserve(64);
	sym_dir((int) sym_pick(2, "dir"));
	std::shared_ptr<queue_manager_interface> q;
	if (sym_pick(2, "manager")) q = std::make_shared<multi_queue_manager>(); else q = std::make_shared<single_queue_manager<>>();
	H = new broker_handler(std::make_shared<cfg>(), std::make_shared<worker_registry>(), q, helpers::create_null_logger());
	init("A", "g", {"env=c"});
	init("B", "g", {"env=c"});
	int k1 = (int) sym_pick(KINDS, "first"), k2 = (int) sym_pick(KINDS, "second");
	uint32_t v = sym_pick(2, "variant");
	R = new str("env=" + sym_str(1, "requirement"));
	X = new str(sym_str(1, "byte"));
	for (int c = 0; c < 2 * CYCLES; c++) {
		work(k1, 2 * c, v);
		work(k2, 2 * c + 1, v);
		tick();
		ping("A"); ping("B");
		measure(c);
	}
	sym_tracev("accepted", (uint64_t) accepted);
	sym_tracev("finals", (uint64_t) finals);
	if (accepted) sym_reach("accepted");
	if (finals) sym_reach("reported");
}
#else
ZSTUB_THREADS
extern "C" long long h_steady_now_ns() { return 5000000000ll; }
extern "C" long long h_system_now_ns() { return 1700000000000000000ll; }
extern "C" void h_sleep_ns(long long) {}
static zsock *C_, *W_;
static int cycle, step, ending;
static size_t nsocks, want_posts;
static int failures;
static int outcome() { if (failures > 0) { failures--; return C_CONNECT; } return C_OK; }
[[noreturn]] static void stop() { for (;;) sym_switch(0); }
static bool ended;
static void on_poll(zmq_pollitem_t *, int)
{
	if (!C_) { for (auto s : zw().socks) { if (s->addr == "tcp://10.0.0.1:1001") C_ = s; if (s->addr == "tcp://10.0.0.2:1002") W_ = s; } W_->in.push_back({"A", "init", "g"}); return; }
	if (!W_->in.empty() || !C_->in.empty()) return;
	str j = N("j", cycle);
	switch (step++) {
	case 0: C_->in.push_back({"K", "eval", j, "", "payload"}); failures = ending & 1; break;
	case 1: {
		sym_assert(W_->sent.size() == 1 && W_->sent[0][0] == "A", "the job was not sent to the worker");
		W_->in.push_back({"A", "progress", j, "x"});
		W_->in.push_back({"A", "done", j, ending & 2 ? "FAILED" : "OK", "why"});
		W_->in.push_back({"A", "ping"});
		break;
	}
	case 2: break;
	default:
		for (int n = 0; n < 6; n++) { bool idle = true; for (auto t : zthreads()) idle &= t->waits && t->waits->in.empty(); if (idle) break; z_yield(); }
		// this model's own records
		sym_assert(cw().requests.size() > 0, "no notification was sent");
		std::vector<crequest>().swap(cw().requests);
		for (auto s : zw().socks) { std::vector<strs>().swap(s->sent); std::deque<strs>().swap(s->in); }
		if (cw().next != -1) sym_assert(cw().handles == 0, "an HTTP handle is left behind");
		if (!nsocks) nsocks = zw().socks.size();
		int open = 0;
		for (auto s : zw().socks) open += !s->closed;
		static int first_open = 0;
		if (!first_open) first_open = open;
		sym_assert(open <= first_open, "a socket is left behind");
		step = 0;
		measure(cycle++);
		if (cycle == 2 * CYCLES) { ended = true; sym_reach("whole"); stop(); }
	}
}
static void program(void *)
{
	YAML::Node d = y_map(), c = y_map(), w = y_map(), n = y_map();
	y_put(c, "address", y_scalar("10.0.0.1")); y_put(c, "port", y_scalar("1001"));
	y_put(w, "address", y_scalar("10.0.0.2")); y_put(w, "port", y_scalar("1002"));
	y_put(n, "address", y_scalar("http://front")); y_put(n, "port", y_scalar("8080")); y_put(n, "username", y_scalar("u")); y_put(n, "password", y_scalar("p"));
	y_put(d, "clients", c); y_put(d, "workers", w); y_put(d, "notifier", n);
	std::shared_ptr<queue_manager_interface> q;
	if (sym_pick(2, "manager")) q = std::make_shared<multi_queue_manager>(); else q = std::make_shared<single_queue_manager<>>();
	auto *b = new broker_connect(std::make_shared<broker_config>(d), std::make_shared<zmq::context_t>(1), std::make_shared<worker_registry>(), q);
	b->start_brokering();
	sym_fail("the main loop ended by itself");
}
extern "C" void sym_main()
{
	zw().threads = true;
	zw().on_poll = on_poll;
	cw().outcome = outcome;
	ending = (int) sym_pick(4, "ending");
	int tid = sym_thread_create(program, nullptr);
	for (int i = 0; !ended; i++) {
		if (i > 40 * CYCLES) sym_fail("the broker does not go on");
		sym_switch(tid);
		if (!ended) z_yield();
	}
}
#endif
