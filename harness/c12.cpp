// C12: arbitrary messages against the broker handler.
#include "broker.h"
#ifndef N_MSG
#define N_MSG 1
#endif
#ifndef NFRAMES
#define NFRAMES 4
#endif
#ifndef FLEN
#define FLEN 2
#endif
#ifndef LONG
#define LONG 0
#endif
#ifndef RAW
#define RAW 0
#endif
static const str WID[] = {str("\0A1", 3), str("\0A2", 3), str("\0A3", 3)};
static const str CLIENT("\0C", 2);
// no message takes a number of milliseconds from outside except the timer, which the reactor produces
static str frame(int i, bool worker)
{
	if (i == 0) {
		static const char *const wc[] = {"init", "done", "ping", "progress", "eval"}, *const cc[] = {"eval", "get-runtime-stats", "freeze", "unfreeze", "done"};
		uint32_t k = sym_pick(6, "command");
		return k < 5 ? str(worker ? wc[k] : cc[k]) : sym_strn(0, FLEN, "command-bytes");
	}
	if (worker && i == 2) {
		static const char *const st[] = {"OK", "INTERNAL_ERROR", "FAILED", "threads=x", ""};
		uint32_t k = sym_pick(6, "status");
		if (k < 5) return st[k];
	}
	static const char *const hd[] = {"threads=", "current_job=", "hwgroup=|", "meta."};
	uint32_t k = i == 1 ? 0 : sym_pick(5, "kind");
	if (k) return hd[k - 1] + sym_strn(0, 1, "value");
	return sym_strn(0, i == 1 ? 1 : FLEN, "bytes");
}
#if LONG
// long frames, many frames
static strs large(bool worker)
{
	static const char *const wc[] = {"init", "done", "ping", "progress"}, *const cc[] = {"eval", "get-runtime-stats", "freeze"};
	strs d;
	static const size_t lens[] = {300, 64, 5000};
	str l = str(lens[sym_pick(3, "length")], 'l') + sym_str(1, "last");
	uint32_t c = sym_pick(worker ? 5 : 4, "command");
	d.push_back(worker ? c < 4 ? wc[c] : l : c < 3 ? cc[c] : l);
	switch (sym_pick(7, "frames")) {
	case 0: d.push_back(l); break;
	case 1: d.push_back(l); d.push_back(l + "=" + l); d.push_back(l); break;
	case 2: d.push_back("j"); d.push_back(l); d.push_back(l); break;
	case 3: for (int i = 0; i < 300; i++) d.push_back(i % 9 == 7 ? "=" : "x=" + l.substr(l.size() - 3)); break;
	case 4: d.push_back("g"); d.push_back("threads=" + str(400, '9')); d.push_back("current_job=" + l); d.push_back(""); d.push_back("description=" + l); d.push_back("current_job=" + l); break;
	case 5: d.push_back("z"); for (int i = 0; i < 40; i++) d.push_back("hwgroup=" + l); d.push_back("threads=" + str(400, '9')); d.push_back(""); d.push_back(l); break;
	case 6: d.push_back("j"); d.push_back("OK"); for (int i = 0; i < 280; i++) d.push_back(""); break;
	}
	return d;
}
#endif
extern "C" void sym_main()
{
	if (!RAW) sym_dir((int) sym_pick(2, "address-order"));
	world w(sym_pick(2, "manager"));
	w.config->failures = 2;
	W a, b;
	a.id = WID[0]; a.hw = "g"; a.hdrs = {{"env", "c"}, {"threads", "4"}};
	b.id = WID[1]; b.hw = "h"; b.hdrs = {{"env", "d"}};
	static const uint32_t rawstate[] = {0, 1, 3};
	uint32_t state = RAW ? rawstate[sym_pick(3, "state")] : sym_pick(4, "state");
	if (state > 0) w.init_new(a);
	if (state > 0) w.init_new(b);
	if (state > 1) w.eval(CLIENT, w.add_job("j", {{"env", "c"}}, {"p"}));
	if (state > 2) w.eval(CLIENT, w.add_job("k", {{"env", "c"}}, {"q"}));
	sym_reach(state == 0 ? "empty" : state == 1 ? "idle" : state == 2 ? "busy" : "waiting");
	for (int m = 0; m < N_MSG; m++) {
		bool worker = sym_pick(2, "sender");
		str id = worker ? WID[sym_pick(3, "who")] : CLIENT;
		strs d;
		int n = LONG ? 1 : (int) sym_pick(NFRAMES + 1, "frames");
#if LONG
		(void) n;
		d = large(worker);
#else
		for (int i = 0; i < n; i++) d.push_back(frame(i, worker));
#endif
		// is it a valid request?
		bool valid = false;
		if (n > 0 && worker) {
			int i = w.find_w(id);
			if (d[0] == "init") valid = n >= 2;
			else if (d[0] == "ping" || d[0] == "progress") valid = true;
			else if (d[0] == "done") valid = !RAW && i >= 0 && w.ws[i].job >= 0 && n >= 3 && d[1] == w.js[w.ws[i].job].id && (d[2] == "OK" || ((d[2] == "FAILED" || d[2] == "INTERNAL_ERROR") && n == 4));
		} else if (n > 0) {
			if (d[0] == "eval") { for (int i = 2; i < n; i++) if (d[i].empty()) valid = true; }
			else valid = d[0] == "freeze" || d[0] == "unfreeze" || d[0] == "get-runtime-stats";
		}
		if (RAW || valid) {
			w.deliver(message_container(worker ? broker_connect::KEY_WORKERS : broker_connect::KEY_CLIENTS, id, d));
			sym_reach(RAW ? "raw" : "valid");
			continue;
		}
		sym_reach("invalid");
		w.junk(worker, id, d);
		// what goes on afterwards goes on as if it had not been received
		if (m == N_MSG - 1) {
			if (state > 1) w.done(WID[0], "j", 0, "");
			if (state > 0) w.tick("400", 400);
			w.drain();
			return;
		}
	}
	// the broker is still at work
	w.deliver(message_container(broker_connect::KEY_WORKERS, WID[2], {"ping"}));
	w.deliver(message_container(broker_connect::KEY_CLIENTS, CLIENT, {"eval", "z", "threads=3", ""}));
	w.deliver(message_container(broker_connect::KEY_WORKERS, WID[0], {"done", "j", "INTERNAL_ERROR", "x"}));
	w.deliver(message_container(broker_connect::KEY_WORKERS, WID[0], {"done", "z", "OK"}));
	for (auto &p : w.reg->get_workers()) p->liveness = 1;
	w.deliver(message_container(broker_connect::KEY_TIMER, "", {"1500"}));
	A(w.reg->get_workers().empty(), "silent workers were not removed", 12);
	w.deliver(message_container(broker_connect::KEY_CLIENTS, CLIENT, {"get-runtime-stats"}));
	A(!w.out.empty(), "the broker stopped answering", 12);
}
