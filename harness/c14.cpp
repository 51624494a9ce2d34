// C14 (and C13, C21 in part): the reactor over the ZeroMQ model, with synchronous and asynchronous handlers.
#include "zstub.h"
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#ifndef PASSES
#define PASSES 2
#endif
#ifndef PREEMPT
#define PREEMPT 2
#endif
#ifndef SHAPES
#define SHAPES 2
#endif
#ifndef FIRST // the first shape
#define FIRST 0
#endif
#ifndef PART
#define PART 0
#endif
ZSTUB_THREADS
static const char *const KEYS[] = {"a", "b", "x", "y"}; // a and b are sockets
static reactor *R;
static zsock *SA, *SB;
static int pass_no;
struct arrival { str key; strs frames; };
static std::vector<arrival> *arrived;
struct rec { int handler; message_container m; };
static std::vector<rec> *calls; // what the handlers were given, in order
static std::vector<std::pair<int, message_container>> *responses; // what they sent
static int timer_calls, stop_after, timer_after_calls;
static bool destroyed[4];
static int in_handler[4];

struct test_handler : public handler_interface {
	int id; str to; bool twice;
	int owner = -1;
	test_handler(int i, const str &t, bool tw = false) : id(i), to(t), twice(tw) {}
	~test_handler() override { destroyed[id] = true; }
	void on_request(const message_container &m, const response_cb &respond) override
	{
		sym_assert(!destroyed[id], "a destroyed handler was called");
		sym_assert(in_handler[id] == 0, "a handler was called again while it was processing a message");
		sym_assert(owner < 0 || owner == sym_self(), "a handler is called from different threads");
		owner = sym_self();
		in_handler[id]++;
		calls->push_back({id, m});
		if (!to.empty() && m.key != to) {
			for (int k = 0; k < (twice ? 2 : 1); k++) {
				message_container r(to, "to" + str(1, char('0' + id)) + m.identity, m.data);
				if (k) r.data.clear();
				responses->push_back({id, r});
				respond(r);
			}
		}
		in_handler[id]--;
	}
};
struct timer_handler : public handler_interface {
	void on_request(const message_container &m, const response_cb &) override
	{
		sym_assert(m.key == "timer" && m.data.size() == 1, "the timer handler got something else than the elapsed time");
		timer_calls++;
		timer_after_calls = (int) calls->size();
		if (timer_calls >= stop_after) R->terminate();
	}
};
static int n_arrivals;
static void arrive(zsock *s, const char *key)
{
	strs f = {str("\0I", 2) + char('0' + n_arrivals)};
	switch (FIRST + sym_pick(SHAPES, "frames")) {
	case 0: f.push_back(""); f.push_back(sym_str(2, "frame")); f.push_back(""); break;
	case 1: break;
	case 2: f.push_back(sym_str(1, "frame")); break;
	case 3: for (int i = 0; i < 4; i++) f.push_back(sym_str(1, "frame")); break;
	case 4: f.push_back(str(299, 'l') + sym_str(1, "frame")); f.push_back(str(256, 'm')); break;
	case 5: for (int i = 0; i < 40; i++) f.push_back(i % 9 == 4 ? str("") : str("f") + char('0' + i % 10)); f.push_back(sym_str(1, "frame")); f[0] = str(253, 'i') + f[0].substr(1); break;
	}
	n_arrivals++;
	s->in.push_back(f);
	arrived->push_back({key, f});
}
static void on_poll(zmq_pollitem_t *, int)
{
	pass_no++;
	if (pass_no <= PASSES) {
		uint32_t k = sym_pick(4, "arrivals");
		if (k & 1) arrive(SA, "a");
		if (k & 2) arrive(SB, "b");
		if (!zthreads().empty() && sym_pick(2, "others-run")) z_yield();
	} else if (!zthreads().empty()) { z_yield(); z_yield(); }
}
static message_container mk(const arrival &a) { return message_container(a.key, a.frames[0], strs(a.frames.begin() + 1, a.frames.end())); }
static int eqm(const message_container &a, const message_container &b) { return a.key != b.key ? 0 : sym_and(eqv(a.identity, b.identity), eqvs(a.data, b.data)); }
static void setup()
{
	arrived = new std::vector<arrival>(); calls = new std::vector<rec>(); responses = new std::vector<std::pair<int, message_container>>();
	zw().on_poll = on_poll;
}
static void expect_same(const std::vector<message_container> &got, const std::vector<message_container> &want, const char *count, const char *content)
{
	sym_assert(got.size() == want.size(), count);
	for (size_t i = 0; i < want.size(); i++) sym_assert(eqm(got[i], want[i]), content);
}
static std::vector<message_container> sent(zsock *s, const char *key)
{
	std::vector<message_container> r;
	for (auto &f : s->sent) { message_container m; m.key = key; m.identity = f[0]; m.data = strs(f.begin() + 1, f.end()); r.push_back(m); }
	return r;
}
// 1: synchronous handlers with arbitrary subscriptions and destinations
NOINLINE static void t_sync()
{
	setup();
	auto ctx = std::make_shared<zmq::context_t>();
	reactor r(ctx);
	R = &r;
	auto wa = std::make_shared<router_socket_wrapper>(ctx, "tcp://a", true); SA = zw().socks.back();
	auto wb = std::make_shared<router_socket_wrapper>(ctx, "tcp://b", false); SB = zw().socks.back();
	r.add_socket("a", wa);
	r.add_socket("b", wb);
	std::vector<uint32_t> subs;
	std::vector<str> to;
	for (int i = 0; i < 2; i++) {
		uint32_t m = i == 0 ? 1 + 2 * sym_pick(2, "subscribed-to-b") : sym_pick(16, "subscriptions");
		uint32_t t = i == 0 ? sym_pick(5, "destination") : 1;
		strs keys;
		for (int k = 0; k < 4; k++) if (m >> k & 1) keys.push_back(KEYS[k]);
		subs.push_back(m);
		to.push_back(t < 4 ? KEYS[t] : "nowhere");
		r.add_handler(keys, std::make_shared<test_handler>(i, to[i], i == 0));
	}
	r.add_handler({"timer"}, std::make_shared<timer_handler>());
	// nobody may pass messages round in circles
	if (to[0] == "x" || to[0] == "y" || to[0] == "nowhere") {} 
	stop_after = PASSES + 1;
	sym_assert(!SA->bound && !SB->connected, "sockets are opened before the loop starts");
	r.start_loop();
	sym_assert(SA->bound && SA->addr == "tcp://a" && SB->connected && SB->addr == "tcp://b", "sockets were not opened");
	// reference
	std::vector<rec> want;
	std::vector<message_container> wsa, wsb;
	struct ref {
		std::vector<uint32_t> &subs; std::vector<str> &to; std::vector<rec> &want; std::vector<message_container> &wsa, &wsb;
		void process(const message_container &m)
		{
			for (int h = 0; h < 2; h++) {
				bool s = false;
				for (int k = 0; k < 4; k++) if ((subs[h] >> k & 1) && m.key == KEYS[k]) s = true;
				if (!s) continue;
				want.push_back({h, m});
				if (m.key == to[h]) continue;
				for (int k = 0; k < (h == 0 ? 2 : 1); k++) {
					message_container x(to[h], "to" + str(1, char('0' + h)) + m.identity, m.data);
					if (k) x.data.clear();
					if (to[h] == "a") wsa.push_back(x); else if (to[h] == "b") wsb.push_back(x); else process(x);
				}
			}
		}
	} f{subs, to, want, wsa, wsb};
	for (auto &a : *arrived) f.process(mk(a));
	sym_tracev("calls", calls->size());
	// which of two messages that are there at the same time, and which of two handlers of the same message comes first is left open
	for (int h = 0; h < 2; h++) {
		for (int k = 0; k < 4; k++) {
			std::vector<message_container> g, w;
			for (auto &c : *calls) if (c.handler == h && c.m.key == KEYS[k]) g.push_back(c.m);
			for (auto &c : want) if (c.handler == h && c.m.key == KEYS[k]) w.push_back(c.m);
			expect_same(g, w, "a handler was not called exactly once per message it is subscribed to", "a handler was given something else than the message");
		}
	}
	sym_assert(calls->size() == want.size(), "a handler was given a message it is not subscribed to");
	auto split = [](const std::vector<message_container> &v, const char *who) { std::vector<message_container> r; for (auto &m : v) if (m.identity.compare(0, 3, who) == 0) r.push_back(m); return r; };
	for (auto who : {"to0", "to1"}) {
		expect_same(split(sent(SA, "a"), who), split(wsa, who), "a response was not sent exactly once through the socket it names", "a response was altered");
		expect_same(split(sent(SB, "b"), who), split(wsb, who), "a response was not sent exactly once through the socket it names", "a response was altered");
	}
	sym_assert(SA->sent.size() == wsa.size() && SB->sent.size() == wsb.size(), "something else was sent through a socket");
	sym_assert(destroyed[0] && destroyed[1], "the handlers were not destroyed when the loop ended");
	sym_assert(timer_calls == PASSES + 1, "the timer is not reported once per pass");
	sym_reach("sync");
	if (wsa.size()) sym_reach("sync-to-socket");
	for (auto &c : want) if (c.m.key == "x") sym_reach("sync-internal");
	if (want.empty()) sym_reach("sync-nothing");
}
// 2: a handler passes messages to an asynchronous one, which answers through a socket or to another handler
NOINLINE static void t_async()
{
	setup();
	zw().threads = zw().late_start = true;
	zw().preempt = PREEMPT;
	auto ctx = std::make_shared<zmq::context_t>();
	bool internal = sym_pick(2, "answers-internally"), direct = sym_pick(2, "subscribed-directly"), empty_after = sym_pick(2, "terminated-early");
	{
		reactor r(ctx);
		R = &r;
		auto wa = std::make_shared<router_socket_wrapper>(ctx, "tcp://a", true); SA = zw().socks.back();
		auto wb = std::make_shared<router_socket_wrapper>(ctx, "tcp://b", true); SB = zw().socks.back();
		r.add_socket("a", wa);
		r.add_socket("b", wb);
		if (!direct) r.add_handler({"a"}, std::make_shared<test_handler>(0, "x"));
		r.add_async_handler({direct ? "a" : "x"}, std::make_shared<test_handler>(1, internal ? "y" : "b", true));
		r.add_handler({"y"}, std::make_shared<test_handler>(2, ""));
		r.add_handler({"b"}, std::make_shared<test_handler>(3, "")); // gets what arrives at b, not what is sent through it
		r.add_handler({"timer"}, std::make_shared<timer_handler>());
		stop_after = empty_after ? PASSES : PASSES + 2 * PASSES + 2;
		r.start_loop();
		bool alive = false;
		for (auto t : zthreads()) alive |= !t->done;
		sym_assert(!alive, "a handler thread is still running after the loop ended");
		sym_assert(destroyed[1] && destroyed[2] && (direct || destroyed[0]), "the handlers were not destroyed when the loop ended");
	}
	std::vector<message_container> to1, got1, ans, got2, res1, to3, got3;
	for (auto &a : *arrived) if (a.key == "b") to3.push_back(mk(a));
	for (auto &a : *arrived) if (a.key == "a") { auto m = mk(a); to1.push_back(direct ? m : message_container("x", "to0" + m.identity, m.data)); }
	for (auto &c : *calls) { if (c.handler == 1) got1.push_back(c.m); if (c.handler == 2) got2.push_back(c.m); if (c.handler == 3) got3.push_back(c.m); }
	for (auto &p : *responses) if (p.first == 1) res1.push_back(p.second);
	sym_tracev("calls", calls->size());
	expect_same(got1, to1, "an asynchronous handler was not given every message exactly once", "a message to an asynchronous handler was altered or out of order");
	expect_same(got3, to3, "a handler was not called exactly once per message that arrived on its socket", "a handler was given something else than the message that arrived");
	auto got = internal ? got2 : sent(SB, "b");
	if (empty_after) {
		sym_assert(got.size() <= res1.size(), "a response of an asynchronous handler was delivered twice");
		res1.resize(got.size());
		sym_reach("terminated-early");
	}
	expect_same(got, res1, "a response of an asynchronous handler was not delivered exactly once", "a response of an asynchronous handler was altered or out of order");
	if (!internal) sym_assert(got2.empty() , "a response went to a handler although there is a socket of that name");
	sym_assert(internal || SA->sent.empty(), "a response went to another socket");
	for (auto s : zw().socks) sym_assert(s->partial.empty(), "a message was left unfinished on a socket");
	sym_reach(internal ? "async-internal" : "async-socket");
	if (to1.size() > 1) sym_reach("async-several");
}
// 3: two asynchronous handlers do not get each other's messages
NOINLINE static void t_two()
{
	setup();
	zw().threads = zw().late_start = true;
	zw().preempt = PREEMPT > 1 ? 1 : PREEMPT;
	auto ctx = std::make_shared<zmq::context_t>();
	reactor r(ctx);
	R = &r;
	auto wa = std::make_shared<router_socket_wrapper>(ctx, "tcp://a", true); SA = zw().socks.back();
	auto wb = std::make_shared<router_socket_wrapper>(ctx, "tcp://b", true); SB = zw().socks.back();
	r.add_socket("a", wa);
	r.add_socket("b", wb);
	r.add_async_handler({"a"}, std::make_shared<test_handler>(0, "x"));
	r.add_async_handler({"b", "x"}, std::make_shared<test_handler>(1, ""));
	r.add_handler({"timer"}, std::make_shared<timer_handler>());
	stop_after = PASSES + 2 * PASSES + 2;
	r.start_loop();
	std::vector<message_container> w0, w1b, w1x, g0, g1b, g1x;
	for (auto &a : *arrived) { if (a.key == "a") w0.push_back(mk(a)); else w1b.push_back(mk(a)); }
	for (auto &m : w0) w1x.push_back(message_container("x", "to0" + m.identity, m.data));
	for (auto &c : *calls) (c.handler == 0 ? g0 : c.m.key == "b" ? g1b : g1x).push_back(c.m);
	expect_same(g0, w0, "an asynchronous handler was not given every message exactly once", "a message to an asynchronous handler was altered or out of order");
	expect_same(g1b, w1b, "the second asynchronous handler was not given every message exactly once", "a message to the second asynchronous handler was altered");
	expect_same(g1x, w1x, "a message from one asynchronous handler to another was not delivered exactly once", "a message from one asynchronous handler to another was altered");
	sym_reach("two");
}
// 4: reception failures: nothing is dispatched, the loop goes on
NOINLINE static void t_failing()
{
	setup();
	auto ctx = std::make_shared<zmq::context_t>();
	reactor r(ctx);
	R = &r;
	auto wa = std::make_shared<router_socket_wrapper>(ctx, "tcp://a", true); SA = zw().socks.back();
	SB = SA;
	r.add_socket("a", wa);
	r.add_handler({"a"}, std::make_shared<test_handler>(0, ""));
	r.add_handler({"timer"}, std::make_shared<timer_handler>());
	zw().on_poll = [](zmq_pollitem_t *, int) { if (pass_no++ == 0) arrive(SA, "a"); else if (pass_no == 2) { zw().fail_recv_at = -1; SA->in.clear(); SA->mid = false; SA->pos = 0; arrive(SA, "a"); } };
	uint32_t at = sym_pick(4, "failing-recv");
	zw().fail_recv_at = (int) at;
	stop_after = 2;
	r.start_loop();
	bool failed = at < (*arrived)[0].frames.size();
	sym_assert(calls->size() == (failed ? 1u : 2u), "a message whose reception failed was dispatched, or a received one was not");
	sym_assert(eqm(calls->back().m, mk((*arrived)[1])), "a message was altered");
	sym_reach(failed ? "recv-failed" : "recv-fine");
}
// 5: many messages are waiting at once; a synchronous and an asynchronous handler, and one the latter answers to
#ifndef BURST
#define BURST 60
#endif
NOINLINE static void t_burst()
{
	setup();
	zw().threads = zw().late_start = true;
	zw().preempt = PREEMPT;
	zw().on_poll = [](zmq_pollitem_t *, int) {
		if (pass_no++ == 0) for (int i = 0; i < BURST; i++) {
			zsock *s = sym_self() >= 0 && i % 3 == 2 ? SB : SA;
			strs f = {str("\0I", 2) + char('0' + i / 100) + char('0' + i / 10 % 10) + char('0' + i % 10), i % 5 == 1 ? "" : "x"};
			if (i + 1 == BURST || i == BURST / 2) f.push_back(sym_str(1, "frame"));
			s->in.push_back(f);
			arrived->push_back({s == SA ? "a" : "b", f});
		}
		if (pass_no % 7 == 0 && !zthreads().empty()) z_yield();
		if (SA->in.empty() && SB->in.empty()) { static int idle = 0; z_yield(); z_yield(); if (++idle > 4 * BURST) R->terminate(); }
	};
	auto ctx = std::make_shared<zmq::context_t>();
	bool direct = sym_pick(2, "subscribed-directly"), internal = sym_pick(2, "answers-internally");
	{
		reactor r(ctx);
		R = &r;
		auto wa = std::make_shared<router_socket_wrapper>(ctx, "tcp://a", true); SA = zw().socks.back();
		auto wb = std::make_shared<router_socket_wrapper>(ctx, "tcp://b", true); SB = zw().socks.back();
		r.add_socket("a", wa);
		r.add_socket("b", wb);
		r.add_handler({"a", "b"}, std::make_shared<test_handler>(0, direct ? "" : "x", true));
		if (direct) r.add_async_handler({"a", "b"}, std::make_shared<test_handler>(1, internal ? "y" : "b", true));
		else r.add_async_handler({"x"}, std::make_shared<test_handler>(1, internal ? "y" : "b", true));
		r.add_handler({"y"}, std::make_shared<test_handler>(2, ""));
		stop_after = 1 << 30;
		r.add_handler({"timer"}, std::make_shared<timer_handler>());
		r.start_loop();
		for (auto t : zthreads()) sym_assert(t->done, "a handler thread is still running after the loop ended");
	}
	for (int part = 0; part < 2; part++) {
		str key = part ? "b" : "a";
		std::vector<message_container> w0, g0;
		for (auto &a : *arrived) if (a.key == key) w0.push_back(mk(a));
		for (auto &c : *calls) if (c.handler == 0 && c.m.key == key) g0.push_back(c.m);
		expect_same(g0, w0, "a handler was not called exactly once for each of many messages", "one of many messages was altered or out of order");
		if (direct) {
			g0.clear();
			for (auto &c : *calls) if (c.handler == 1 && c.m.key == key) g0.push_back(c.m);
			expect_same(g0, w0, "an asynchronous handler was not given each of many messages exactly once", "one of many messages to an asynchronous handler was altered or out of order");
		}
	}
	std::vector<message_container> res0, res1, got1, got2;
	for (auto &p : *responses) (p.first == 0 ? res0 : res1).push_back(p.second);
	for (auto &c : *calls) { if (c.handler == 1) got1.push_back(c.m); if (c.handler == 2) got2.push_back(c.m); }
	if (!direct) expect_same(got1, res0, "an asynchronous handler was not given each of many messages exactly once", "one of many messages to an asynchronous handler was altered or out of order");
	if (internal) expect_same(got2, res1, "each of many responses of an asynchronous handler was not delivered exactly once", "one of many responses of an asynchronous handler was altered or out of order");
	else expect_same(sent(SB, "b"), res1, "each of many responses of an asynchronous handler was not sent exactly once", "one of many responses of an asynchronous handler was altered or out of order");
	sym_reach("burst");
}
// 6: a reactor that is given messages before its loop runs, or whose loop cannot start
NOINLINE static void t_unstarted()
{
	setup();
	zw().threads = zw().late_start = true;
	zw().preempt = PREEMPT;
	auto ctx = std::make_shared<zmq::context_t>();
	uint32_t n = sym_pick(3, "messages");
	bool start = sym_pick(2, "start"), two = sym_pick(2, "two"), thrown = false;
	std::vector<message_container> want, got, got2;
	{
		reactor r(ctx);
		R = &r;
		r.add_socket("a", std::make_shared<router_socket_wrapper>(ctx, "tcp://a", true));
		if (start) zw().busy_address = "tcp://a";
		r.add_async_handler({"x"}, std::make_shared<test_handler>(0, "y", true));
		if (two) r.add_async_handler({"x", "q"}, std::make_shared<test_handler>(1, "", true));
		for (uint32_t i = 0; i < n; i++) {
			message_container m("x", sym_strn(0, 1, "identity"), {});
			if (sym_pick(2, "frames")) m.data.push_back(sym_strn(0, 1, "frame"));
			want.push_back(m);
			r.send_message(m);
		}
		if (start) { try { r.start_loop(); } catch (std::exception &) { thrown = true; } }
	}
	if (start) sym_assert(thrown, "a socket that cannot be bound is not reported");
	for (auto t : zthreads()) sym_assert(t->done, "a handler thread is still running after the reactor is gone");
	sym_assert(destroyed[0] && (!two || destroyed[1]), "a handler was not destroyed with the reactor");
	for (auto &c : *calls) (c.handler ? got2 : got).push_back(c.m);
	expect_same(got, want, "a message sent before the loop ran was not given to the handler exactly once", "a message sent before the loop ran was altered or out of order");
	if (two) expect_same(got2, want, "a message sent before the loop ran was not given to the handler exactly once", "a message sent before the loop ran was altered or out of order");
	sym_reach(start ? "not-startable" : "not-started");
	if (n) sym_reach("sent-early");
}
extern "C" void sym_main()
{
	switch (PART ? PART : 1 + sym_pick(4, "part")) {
	case 1: t_sync(); break;
	case 2: t_async(); break;
	case 3: t_two(); break;
	case 4: t_failing(); break;
	case 5: t_burst(); break;
	case 6: t_unstarted(); break;
	}
}
