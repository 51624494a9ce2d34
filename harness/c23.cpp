// C23: the whole program from its command line on: main, broker_core and everything below.
#include "zstub.h"
#include "curlstub.h"
#include "yamlh.h"
#include <iostream>
#include <functional>
#include "broker_core.h"
#ifndef FLEN
#define FLEN 2
#endif
#ifndef MLEN
#define MLEN 6
#endif
ZSTUB_THREADS
extern "C" long long h_steady_now_ns() { return 5000000000ll; }
extern "C" long long h_system_now_ns() { return 1700000000000000000ll; }
extern "C" void h_sleep_ns(long long) {}

// ---- what the program finds and does
static strs loaded; // configuration files read
static strs made; // directories created
static int load_result; // 0 document, 1 no such file, 2 not YAML
static int dirs_exist, dirs_refused;
static YAML::Node *doc;
static bool ended, brokering;
static int status;
static int bind_fails;
static int core_tid;
[[noreturn]] static void stop() { for (;;) sym_switch(0); }
// the process ends: nothing after this runs
extern "C" void exit(int c) noexcept { ended = true; status = c; stop(); }
#ifdef SYM_NATIVE
namespace YAML { Node LoadFile(const std::string &f) {
#else
namespace YAML { Node h_load_file(const std::string &f) {
#endif
	loaded.push_back(f);
	if (load_result == 1) throw YAML::BadFile(
#ifdef SYM_NATIVE
		f
#endif
	);
	if (load_result == 2) throw YAML::ParserException(
#ifdef SYM_NATIVE
		YAML::Mark(),
#endif
		"not yaml");
	return *doc;
} }
extern "C" int h_fs_is_dir(const char *, size_t) { return dirs_exist; }
extern "C" int h_fs_mkdirs(const char *p, size_t n) { if (dirs_refused) return -1; made.push_back(str(p, n)); return dirs_exist ? 0 : 1; }
static void on_poll(zmq_pollitem_t *, int);

#include "broker_core.cpp"
#define main broker_main
#include "main.cpp"
#undef main

static strs args;
static void program(void *)
{
	// argv as the operating system makes it
	std::vector<char *> argv;
	for (auto &a : args) argv.push_back(&a[0]);
	argv.push_back(nullptr);
	int r = broker_main((int) args.size(), argv.data());
	if (!ended) { ended = true; status = r; }
	stop();
}
// until the process has ended or is brokering and done with the script
static void run_program()
{
	zw().threads = zw().late_start = true;
	zw().on_poll = on_poll;
	core_tid = sym_thread_create(program, nullptr);
	for (int i = 0; !ended && !brokering; i++) {
		if (i > 200) sym_fail("the program neither ends nor starts brokering");
		sym_switch(core_tid);
		if (!ended && !brokering) z_yield();
	}
}
static void refused(const char *msg)
{
	sym_assert(ended && !brokering, msg);
	sym_assert(status != 0, "the program ended with success although it could not start");
	for (auto s : zw().socks) sym_assert(!((s->bound || s->connected) && s->addr.compare(0, 6, "tcp://") == 0 && !s->closed), "a refused start leaves a socket open");
	sym_tracev("status", (uint64_t) status);
}
static YAML::Node config(const str &manager = "", bool have_log = false, const str &file = "", const str &level = "", const str &size = "", const str &count = "")
{
	YAML::Node d = y_map(), c = y_map(), w = y_map(), m = y_map();
	y_put(c, "address", y_scalar("10.0.0.1")); y_put(c, "port", y_scalar("1001"));
	y_put(w, "address", y_scalar("10.0.0.2")); y_put(w, "port", y_scalar("1002"));
	y_put(m, "address", y_scalar("10.0.0.3")); y_put(m, "port", y_scalar("1003"));
	y_put(d, "clients", c); y_put(d, "workers", w); y_put(d, "monitor", m);
	if (manager.size()) y_put(d, "queue_manager", y_scalar(manager));
	if (have_log) {
		YAML::Node l = y_map();
		y_put(l, "file", y_scalar(file));
		if (level.size()) y_put(l, "level", y_scalar(level));
		if (size.size()) y_put(l, "max-size", y_scalar(size));
		if (count.size()) y_put(l, "rotations", y_scalar(count));
		y_put(d, "logger", l);
	}
	return d;
}
// ---- the brokering itself: does it work, and with which queue manager
static bool behaviour;
static int stage, got_second;
static zsock *C_, *W_, *M_;
static str first_free;
static zsock *by_addr(const str &a) { zsock *r = nullptr; int n = 0; for (auto s : zw().socks) if (eqv(s->addr, a)) { r = s; n++; } sym_assert(n == 1, "there is not exactly one socket for a configured endpoint"); return r; }
static void submit(const char *id) { C_->in.push_back({"K", "eval", id, "", "p"}); }
static void on_poll(zmq_pollitem_t *, int)
{
	if (stage == 0) {
		C_ = by_addr("tcp://10.0.0.1:1001"); W_ = by_addr("tcp://10.0.0.2:1002"); M_ = by_addr("tcp://10.0.0.3:1003");
		sym_assert(C_->bound && W_->bound && M_->connected, "the configured endpoints are not open");
	}
	if (!behaviour) { brokering = true; stop(); }
	switch (stage++) {
	case 0: W_->in.push_back({"a", "init", "g"}); W_->in.push_back({"b", "init", "g"}); break;
	case 1: break;
	case 2: submit("1"); break;
	case 3: submit("2"); break;
	case 4: submit("3"); break;
	case 5: submit("4"); break;
	case 6: {
		sym_assert(W_->sent.size() == 2 && W_->sent[0][0] != W_->sent[1][0], "two jobs are not running on the two workers");
		first_free = W_->sent[1][0];
		W_->in.push_back({first_free, "done", W_->sent[1][2], "OK", ""});
		break;
	}
	case 7:
		sym_assert(W_->sent.size() == 3 && W_->sent[2][0] == first_free, "a worker that finished got no waiting job");
		W_->in.push_back({first_free, "done", W_->sent[2][2], "OK", ""});
		break;
	default:
		got_second = W_->sent.size() == 4 && W_->sent[3][0] == first_free;
		brokering = true;
		stop();
	}
}
static str filename_()
{
	str f = sym_strn(1, FLEN, "file");
	for (auto c : f) sym_assume(c != 0);
	sym_assume(f[0] != '-');
	return f;
}
NOINLINE static void t_command_line()
{
	YAML::Node d = config();
	doc = &d;
	dirs_exist = 1;
	str f = "config.yml";
	args = {"recodex-broker"};
	uint32_t form = sym_pick(6, "form");
	if (form) f = filename_();
	switch (form) {
	case 0: break;
	case 1: args.push_back("-c"); args.push_back(f); break;
	case 2: args.push_back("-c" + f); break;
	case 3: args.push_back("--config"); args.push_back(f); break;
	case 4: args.push_back("--config=" + f); break;
	default: load_result = 1; args.push_back("-c"); args.push_back(f); break;
	}
	run_program();
	sym_assert(loaded.size() == 1 && eqv(loaded[0], f), "another configuration file was read than the one given");
	if (form == 5) { refused("the broker starts without its configuration file"); sym_reach("no-file"); return; }
	sym_assert(brokering && !ended, "the broker does not start");
	sym_reach(form ? "given" : "default");
}
NOINLINE static void t_bad_command_line()
{
	YAML::Node d = config();
	doc = &d;
	dirs_exist = 1;
	args = {"recodex-broker"};
	uint32_t form = sym_pick(7, "form");
	switch (form) {
	case 0: args.push_back("-c"); break;
	case 1: args.push_back("--config"); break;
	case 2: { str s = "-" + sym_str(1, "option"); sym_assume(sym_and(sym_and(s[1] != 0, s[1] != '-'), sym_and(s[1] != 'c', s[1] != 'h'))); args.push_back(s); break; }
	case 3: { str s = "--" + sym_str(1, "option") + "x"; sym_assume(sym_and(s[2] != 0, sym_and(s[2] != '=', s[2] != '-'))); args.push_back(s); break; }
	case 4: args.push_back("-h"); break;
	case 5: args.push_back("--help"); break;
	default: args.push_back("-c"); args.push_back("x"); args.push_back("-c"); args.push_back("y"); break;
	}
	run_program();
	if (form != 4 && form != 5) sym_assert(status != 0, "the program ended with success although it was called wrongly");
	// the text on the standard error output is all it does
	sym_assert(ended && !brokering, "the broker starts although it was called wrongly or asked for help");
	sym_assert(loaded.empty() && spdlog::sinks::rotating_records().empty() && zw().socks.empty(), "a broker that is not to start does something");
	sym_reach("bad-command-line");
}
NOINLINE static void t_bad_config()
{
	YAML::Node d = config();
	doc = &d;
	dirs_exist = 1;
	args = {"recodex-broker"};
	switch (sym_pick(6, "kind")) {
	case 0: load_result = 1; break;
	case 1: load_result = 2; break;
	case 2: d = y_scalar("text"); doc = &d; break;
	case 3: d = y_null(); doc = &d; break;
	case 4: d = y_seq(); doc = &d; break;
	default: { YAML::Node c = y_map(); y_put(c, "port", y_scalar("65536")); YAML::Node e = y_map(); y_put(e, "clients", c); d = e; doc = &d; break; }
	}
	run_program();
	refused("the broker starts with a broken configuration");
	sym_assert(zw().socks.empty() && spdlog::sinks::rotating_records().empty(), "something was opened although the configuration is broken");
	sym_reach("bad-config");
}
NOINLINE static void t_log()
{
	static const char *const dirs[] = {"", "d/", "/", "/d/e/", "./"}, *const parents[] = {"", "d", "/", "/d/e", "."};
	static const char *const levels[] = {"", "off", "critical", "err", "warn", "info", "debug", "trace"};
	static const int want_level[] = {1, 6, 5, 4, 3, 2, 1, 0};
	static const char *const sizes[] = {"", "1", "1048575", "4294967296"};
	static const size_t want_size[] = {1024 * 1024, 1, 1048575, 4294967296ull};
	static const char *const counts[] = {"", "1", "2", "77"};
	static const size_t want_count[] = {3, 1, 2, 77};
	uint32_t di = sym_pick(5, "directory"), li = 6, si = 0, ci = 0;
	if (sym_pick(2, "vary")) li = sym_pick(8, "level"); else { si = sym_pick(4, "size"); ci = sym_pick(4, "count"); }
	str name = sym_strn(1, FLEN, "name");
	for (auto c : name) sym_assume(sym_and(c != 0, sym_and(c != '/', c != '.')));
	YAML::Node d = config("", true, dirs[di] + name, levels[li], sizes[si], counts[ci]);
	doc = &d;
	dirs_exist = (int) sym_pick(2, "exists");
	if (!dirs_exist) dirs_refused = (int) sym_pick(2, "refused");
	args = {"recodex-broker"};
	run_program();
	auto &rr = spdlog::sinks::rotating_records();
	str parent = parents[di];
	if (dirs_refused && parent.size()) {
		refused("the broker starts although its log cannot be created");
		sym_assert(zw().socks.empty(), "sockets were opened although the log cannot be created");
		sym_reach("log-refused");
		return;
	}
	sym_assert(brokering && !ended, "the broker does not start with a correct log configuration");
	sym_assert(rr.size() == 1, "there is not exactly one log");
	str want = dirs[di] + name;
	sym_assert(sym_or(eqv(rr[0].file, want), eqv(rr[0].file, want + ".log")), "the log is not written to the configured file");
	sym_assert(rr[0].size == want_size[si], "the log files have another size than configured");
	sym_assert(rr[0].files == want_count[ci], "another number of log files is kept than configured");
	sym_assert(spdlog::loggers_().size() == 1 && spdlog::loggers_()[0]->level() == want_level[li], "the log has another level than configured");
	if (!dirs_exist && parent.size()) {
		sym_assert(made.size() >= 1 && eqv(made.back(), parent), "the directory of the log was not created");
		sym_reach("log-directory");
	}
	sym_reach(li == 6 ? "log" : "log-level");
	if (parent.empty()) sym_reach("log-here");
}
NOINLINE static void t_manager()
{
	uint32_t k = sym_pick(4, "manager");
	str name = k == 0 ? "" : k == 1 ? "single" : k == 2 ? "multi" : sym_strn(1, MLEN, "name");
	if (k == 3) sym_assume(sym_and(sym_not(eqv(name, "single")), sym_not(eqv(name, "multi"))));
	YAML::Node d = config(name);
	doc = &d;
	dirs_exist = 1;
	args = {"recodex-broker"};
	behaviour = true;
	run_program();
	if (k == 3) { refused("the broker starts with an unknown queue manager"); sym_reach("unknown-manager"); return; }
	sym_assert(brokering && !ended, "the broker does not start");
	// one queue: whoever is free takes what waits; a queue per worker: what was assigned to the other worker stays there
	sym_assert(got_second == (k != 2), "the broker does not use the configured queue manager");
	sym_reach(k == 2 ? "multi" : "single");
}
NOINLINE static void t_bind()
{
	YAML::Node d = config();
	doc = &d;
	dirs_exist = 1;
	args = {"recodex-broker"};
	static const char *const addrs[] = {"tcp://10.0.0.1:1001", "tcp://10.0.0.2:1002"};
	zw().busy_address = addrs[sym_pick(2, "busy")];
	run_program();
	refused("the broker runs although it cannot listen on a configured endpoint");
	sym_reach("busy");
}
extern "C" void sym_main()
{
	switch (sym_pick(6, "part")) {
	case 0: t_command_line(); break;
	case 1: t_bad_command_line(); break;
	case 2: t_bad_config(); break;
	case 3: t_log(); break;
	case 4: t_manager(); break;
	case 5: t_bind(); break;
	}
}
