// C21: the time the main loop reports to timer subscribers against a virtual clock.
#include "zstub.h"
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#ifndef PASSES
#define PASSES 3
#endif
#ifndef STEPS
#define STEPS 8
#endif
#ifndef SAME
#define SAME 0
#endif
#ifndef SYMTIME
#define SYMTIME 0
#endif
ZSTUB_THREADS
static long long real_ns, wall_off, started, reported_ms, polled;
static int reports, passes, handled, arrived_now, subs;
static reactor *R;
static zsock *SA;
extern "C" long long h_steady_now_ns() { return 77000000123ll + real_ns; }
extern "C" long long h_system_now_ns() { return 1700000000000000000ll + real_ns + wall_off; }
// time that passes
static long long step(const char *n)
{
#if SYMTIME
	// any number of nanoseconds below 2^BITS
	return (long long) (sym_u64(n) & ((1ull << SYMTIME) - 1));
#elif SAME
	// each wait, and each handler, takes the same time throughout
	static const long long d[] = {600000, 400000, 999999, 1000001, 40000, 1999999, 0, 60000000000ll, 4294967295000000ll, 4294967296000000ll, 2147483648000000ll, 333333333};
	static int poll = -1, hand = -1;
	int &k = n[0] == 'p' ? poll : hand;
	if (n[0] == 'b') return 0;
	if (k < 0) k = (int) sym_pick(n[0] == 'p' ? 12 : 7, n);
	return d[k];
#else
	static const long long d[] = {0, 400000, 999999, 1700000, 3600000000000ll, 1, 1000000, 123456789};
	return d[sym_pick(STEPS, n)];
#endif
}
static void on_poll(zmq_pollitem_t *, int)
{
	passes++;
	sym_assert(reports == subs * (passes - 1), "the elapsed time is not reported exactly once per pass");
	handled = 0;
	real_ns += step("poll-time");
#if SAME
	arrived_now = passes % 2;
	if (passes % 5 == 3) wall_off -= 3600000000000ll;
#else
#if !SYMTIME
	static const long long j[] = {0, -7200000000000ll, 7200000000000ll};
	wall_off += j[sym_pick(STEPS > 5 ? 3 : 2, "wall-clock-jump")];
#endif
	arrived_now = (int) sym_pick(2, "arrives");
#endif
	if (arrived_now) SA->in.push_back({"id", "x"});
}
struct slow_handler : public handler_interface {
	void on_request(const message_container &, const response_cb &) override { handled++; real_ns += step("handler-time"); }
};
struct timer_handler : public handler_interface {
	int id; long long sum = 0;
	timer_handler(int i) : id(i) {}
	void on_request(const message_container &m, const response_cb &) override
	{
		sym_assert(m.key == "timer" && m.data.size() == 1 && m.data[0].size() > 0, "the timer message has another form");
		sym_assert(handled == arrived_now, "the elapsed time is reported before the messages of the pass are handled");
		long long v = 0;
		for (char c : m.data[0]) { sym_assert(sym_and(c >= '0', c <= '9'), "the elapsed time is not a number of milliseconds"); v = v * 10 + (c - '0'); }
		sum += v;
		long long diff = real_ns - started - sum * 1000000;
		sym_assert(sym_and(diff <= 1000000, diff >= -1000000), "the sum of the reported times does not match the time passed");
		reports++;
		sym_tracev("elapsed", (uint64_t) v);
		if (passes >= PASSES && reports == subs * passes) R->terminate();
		if (v == 0) sym_reach("zero"); else sym_reach("some");
	}
};
extern "C" void sym_main()
{
	auto ctx = std::make_shared<zmq::context_t>();
	reactor r(ctx);
	R = &r;
	zw().on_poll = on_poll;
	auto wa = std::make_shared<router_socket_wrapper>(ctx, "tcp://a", true); SA = zw().socks.back();
	r.add_socket("a", wa);
	r.add_handler({"a"}, std::make_shared<slow_handler>());
	subs = SYMTIME ? 1 : 1 + (int) sym_pick(2, "subscribers");
	for (int i = 0; i < subs; i++) r.add_handler({reactor::KEY_TIMER}, std::make_shared<timer_handler>(i));
	real_ns += SYMTIME ? 0 : step("before-start");
	started = real_ns;
	r.start_loop();
	sym_assert(reports == subs * PASSES, "the elapsed time is not reported exactly once per pass");
	sym_reach("ended");
}
