// The whole broker as broker_connect puts it together: configuration, sockets, reactor, handlers, notifier thread, HTTP.
#include "zstub.h"
#include "curlstub.h"
#include "yamlh.h"
#include "broker_connect.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#ifndef PREEMPT
#define PREEMPT 1
#endif
ZSTUB_THREADS
static long long real_ns;
extern "C" long long h_steady_now_ns() { return 5000000000ll + real_ns; }
extern "C" long long h_system_now_ns() { return 1700000000000000000ll; }
extern "C" void h_sleep_ns(long long) {}
struct stop_loop {};
static zsock *C_, *W_, *M_;
static str ec, ew, em;
static const str worker_id("\0W", 2), client_id("\0C", 2);
static str payload, jobid, prog;
static int stage, ending, failures;
static uint32_t liveness, interval;
static size_t posts_before;
static strs last(zsock *s) { sym_assert(!s->sent.empty(), "a message that should have been sent was not sent"); return s->sent.back(); }
static zsock *by_addr(const str &a)
{
	zsock *r = nullptr;
	int n = 0;
	for (auto s : zw().socks) if (eqv(s->addr, a)) { r = s; n++; }
	sym_assert(n == 1, "there is not exactly one socket for a configured endpoint");
	return r;
}
static int outcome() { if (failures > 0) { failures--; return C_CONNECT; } return C_OK; }
static void expect(zsock *s, size_t n, const char *msg) { sym_assert(s->sent.size() == n, msg); }
static void drain() { for (int i = 0; i < 3; i++) z_yield(); }
static void posted(const str &path, const str &status)
{
	drain();
	sym_assert(!cw().requests.empty(), "no notification was sent");
	crequest *found_r = nullptr;
	for (auto &x : cw().requests) if (eqv(x.url, "http://front" + path)) found_r = &x;
	sym_assert(found_r != nullptr, "no notification about the job was sent to the configured address");
	crequest &r = *found_r;
	sym_assert(r.port == 8080 && r.user == "u" && r.pass == "p" && r.post, "a notification went to another port or without credentials");
	bool found = false;
	for (auto &f : c_form(r.body)) found |= f.first == "status" && f.second == status;
	sym_assert(found, "a notification does not carry the status");
}
static void on_poll(zmq_pollitem_t *items, int n)
{
	switch (stage++) {
	case 0: {
		C_ = by_addr(ec); W_ = by_addr(ew); M_ = by_addr(em);
		sym_assert(C_->bound && W_->bound && M_->connected && !M_->bound, "a socket is bound or connected wrongly");
		for (auto s : {C_, W_, M_}) { sym_assert(s->type == ZMQ_ROUTER, "a socket has another type"); int k = 0; for (int i = 0; i < n; i++) k += items[i].socket == s && (items[i].events & ZMQ_POLLIN); sym_assert(k == 1, "a socket is not polled"); }
		W_->in.push_back({worker_id, "init", "group", "env=c"});
		break;
	}
	case 1:
		expect(C_, 0, "an unexpected message to a client"); expect(W_, 0, "an unexpected message to a worker"); expect(M_, 0, "an unexpected message to the monitor");
		C_->in.push_back({client_id, "eval", jobid, "env=c", "", payload});
		break;
	case 2: {
		expect(W_, 1, "the job was not sent to the worker once");
		strs e = {worker_id, "eval", jobid, payload};
		sym_assert(eqvs(last(W_), e), "the job sent to the worker was altered");
		sym_assert(C_->sent.size() == 2 && eqvs(C_->sent[0], {client_id, "ack"}) && eqvs(C_->sent[1], {client_id, "accept"}), "the client was not answered");
		W_->in.push_back({worker_id, "progress", jobid, prog});
		break;
	}
	case 3: {
		expect(M_, 1, "the progress was not forwarded to the monitor once");
		strs e = {"recodex-monitor", jobid, prog};
		sym_assert(eqvs(last(M_), e), "the progress message was altered");
		posts_before = cw().requests.size();
		sym_assert(posts_before == 0, "a notification was sent without a reason");
		if (ending == 0) W_->in.push_back({worker_id, "done", jobid, "OK", ""});
		else if (ending == 1) W_->in.push_back({worker_id, "done", jobid, "FAILED", "why"});
		else real_ns += (long long) liveness * interval * 1000000ll; // silence
		break;
	}
	case 4:
		if (ending == 0) { posted("/job-status/" + jobid, "OK"); sym_reach("done"); throw stop_loop(); }
		if (ending == 1) { posted("/job-status/" + jobid, "FAILED"); sym_reach("failed"); throw stop_loop(); }
		// the lives are taken away one per report
		real_ns += (long long) liveness * interval * 1000000ll;
		break;
	case 5: case 6: case 7: real_ns += (long long) liveness * interval * 1000000ll; break;
	default:
		// nobody else could process the job
		posted("/job-status/" + jobid, "FAILED");
		sym_reach("expired");
		throw stop_loop();
	}
}
extern "C" void sym_main()
{
	zw().on_poll = on_poll;
	zw().threads = zw().late_start = true;
	zw().preempt = PREEMPT;
	cw().outcome = outcome;
	static const char *const ports[] = {"1", "80", "9657", "65535"};
	str pc = ports[sym_pick(4, "client-port")], pw = ports[sym_pick(4, "worker-port")], pm = ports[sym_pick(4, "monitor-port")];
	str ac = "10.0.0." + sym_digits(1, "client-address"), aw = "10.0.1." + sym_digits(1, "worker-address"), am = "10.0.2." + sym_digits(1, "monitor-address");
	ec = "tcp://" + ac + ":" + pc; ew = "tcp://" + aw + ":" + pw; em = "tcp://" + am + ":" + pm;
	interval = 500; liveness = 1 + sym_pick(2, "liveness");
	ending = (int) sym_pick(3, "ending");
	if (ending < 2) failures = (int) sym_pick(2, "http-failures");
	YAML::Node doc = y_map(), c = y_map(), w = y_map(), m = y_map(), n = y_map();
	y_put(c, "address", y_scalar(ac)); y_put(c, "port", y_scalar(pc));
	y_put(w, "address", y_scalar(aw)); y_put(w, "port", y_scalar(pw));
	y_put(w, "max_liveness", y_scalar(liveness == 1 ? "1" : "2")); y_put(w, "ping_interval", y_scalar("500"));
	y_put(m, "address", y_scalar(am)); y_put(m, "port", y_scalar(pm));
	y_put(n, "address", y_scalar("http://front")); y_put(n, "port", y_scalar("8080")); y_put(n, "username", y_scalar("u")); y_put(n, "password", y_scalar("p"));
	y_put(doc, "clients", c); y_put(doc, "workers", w); y_put(doc, "monitor", m); y_put(doc, "notifier", n);
	jobid = "j" + sym_str(1, "job");
	sym_assume(sym_and(jobid[1] >= 'a', jobid[1] <= 'z'));
	payload = sym_strn(0, 1, "payload");
	prog = sym_strn(0, 1, "progress");
	auto cfg = std::make_shared<broker_config>(doc);
	auto ctx = std::make_shared<zmq::context_t>(1);
	std::shared_ptr<queue_manager_interface> q;
	if (sym_pick(2, "manager")) q = std::make_shared<multi_queue_manager>(); else q = std::make_shared<single_queue_manager<>>();
	auto *b = new broker_connect(cfg, ctx, std::make_shared<worker_registry>(), q);
	bool stopped = false;
	try { b->start_brokering(); } catch (stop_loop &) { stopped = true; }
	sym_assert(stopped, "the main loop ended by itself");
	sym_tracev("posts", cw().requests.size());
	sym_reach("ended");
}
