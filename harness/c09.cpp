// C09: long queues of jobs that arrived within one clock tick (or while the wall clock was set back).
#include "broker.h"
#ifndef LONG
#define LONG 20
#endif
static long long wall_ns = 1700000000000000000ll;
static int step = 0;
extern "C" long long h_system_now_ns() { return wall_ns -= step * 3600000000000ll; }
static const str CLIENT("\0C", 2);
static str J2(int n) { return str("job") + char('0' + n / 10) + char('0' + n % 10); }
extern "C" void sym_main()
{
	sym_dir((int) sym_pick(2, "address-order"));
	step = (int) sym_pick(2, "wall-clock-set-back");
	world w(sym_pick(2, "manager"));
	W a, b;
	a.id = "A"; a.hw = "g"; str ea = sym_str(1, "env-a"), eb = sym_str(1, "env-b"), er = sym_str(1, "env-r");
	sym_assume(ea[0] != eb[0]);
	a.hdrs = {{"env", ea}};
	b.id = "B"; b.hw = "g"; b.hdrs = {{"env", eb}};
	w.init_new(a);
	w.init_new(b);
	int p = (int) sym_pick(LONG, "position");
	sym_assume(sym_or(er[0] == ea[0], er[0] == eb[0]));
	w.eval(CLIENT, w.add_job("first", {{"env", ea}}, {}));
	w.eval(CLIENT, w.add_job("other", {{"env", eb}}, {}));
	for (int i = 0; i < LONG; i++) w.eval(CLIENT, w.add_job(J2(i), i == p ? hlist{{"env", er}} : hlist{{"env", ea}}, {}));
	A(w.n_wait() == LONG, "jobs are not waiting", 1);
	// B becomes free after some of A's jobs
	int when = (int) sym_pick(3, "when") * (LONG / 2 - 1);
	int how = (int) sym_pick(2, "how");
	for (int i = 0; i < LONG; i++) {
		if (i == when && w.ws[1].job >= 0) w.done("B", w.js[w.ws[1].job].id, 0, "");
		if (w.ws[0].job >= 0) w.done("A", w.js[w.ws[0].job].id, how && i == 1 ? 1 : 0, "again");
	}
	sym_reach(w.single ? "single" : "multi");
}
