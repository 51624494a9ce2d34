// C15: notifications to the frontend over the libcurl model.
#include "curlstub.h"
#include "handlers/status_notifier_handler.h"
#include "notifier/reactor_status_notifier.h"
#include "helpers/logger.h"
#include "helpers/curl.h"
#ifndef VLEN
#define VLEN 2
#endif
#ifndef NMSG
#define NMSG 2
#endif
struct step { bool attempt; long long ns; bool ok; };
static std::vector<step> *steps;
extern "C" void h_sleep_ns(long long ns) { steps->push_back({false, ns, false}); }
static bool can_fail = true;
static int outcome()
{
	int o = can_fail ? (int) sym_pick(4, "outcome") : C_OK;
	steps->push_back({true, 0, o == C_OK});
	return o;
}
using fields = std::vector<std::pair<str, str>>;
struct note { str type, id; fields f; };
static notifier_config cfg;
static void check_request(const crequest &r, const note &n)
{
	sym_assert(r.post, "a notification is not sent as a POST request");
	str url = cfg.address;
	if (!n.type.empty()) url += "/" + n.type;
	if (!n.id.empty()) url += "/" + n.id;
	sym_assert(eqv(r.url, url), "a notification is sent to another address");
	sym_assert(r.port == (long) cfg.port, "a notification is sent to another port");
	sym_assert(sym_and(eqv(r.user, cfg.username), eqv(r.pass, cfg.password)), "a notification is sent with other credentials");
	sym_assert(cfg.username.empty() && cfg.password.empty() ? 1 : (int) r.basic, "the credentials are not used");
	auto got = c_form(r.body);
	sym_assert(got.size() == n.f.size(), "a notification does not carry exactly its fields");
	for (auto &w : n.f) {
		int found = 0;
		for (auto &g : got) found = sym_or(found, sym_and(eqv(g.first, w.first), eqv(g.second, w.second)));
		sym_assert(found, "a field of a notification is missing or altered");
	}
	trace_str("body", r.body);
}
static void run(status_notifier_handler &h, const message_container &m, const note &n)
{
	size_t before = cw().requests.size(), s0 = steps->size();
	h.on_request(m, [](const message_container &) { sym_fail("the notifier responds to something"); });
	// attempts and waits
	int attempts = 0;
	long long waited = 0, expect = 1000000000ll;
	bool ok = false, first = true;
	for (size_t i = s0; i < steps->size(); i++) {
		auto &s = (*steps)[i];
		if (!s.attempt) { waited += s.ns; continue; }
		sym_assert(!ok, "another attempt is made after one succeeded");
		if (!first) { sym_assert(waited == expect, "the waiting time between two attempts is wrong"); expect *= 2; }
		else sym_assert(waited == 0, "the first attempt is delayed");
		waited = 0;
		first = false;
		ok = s.ok;
		attempts++;
	}
	sym_assert(attempts >= 1, "a notification is not sent at all");
	sym_assert(attempts <= 4, "more than four attempts are made");
	sym_assert(ok || attempts == 4, "a failed notification is not retried four times");
	sym_assert(cw().handles == 0, "curl handles are left behind");
	for (size_t i = before; i < cw().requests.size(); i++) check_request(cw().requests[i], n);
	sym_tracev("attempts", (uint64_t) attempts);
	sym_reach(ok ? attempts == 1 ? "first-time" : "retried" : "given-up");
}
static str safe_id(const char *n)
{
	str s = sym_strn(1, VLEN, n);
	for (char c : s) sym_assume(sym_or(sym_and(c >= 'a', c <= 'z'), sym_or(sym_and(c >= '0', c <= '9'), sym_or(c == '_', c == '-'))));
	return s;
}
static void config(bool arbitrary)
{
	cfg.address = "https://front.end/api";
	cfg.port = 443; cfg.username = "user"; cfg.password = "pass";
	if (!arbitrary) return;
	cfg.address = "http://h" + sym_str(1, "address");
	sym_assume(cfg.address.back() != 0);
	cfg.port = sym_u16("port");
	cfg.username = sym_strn(0, 1, "username");
	for (char c : cfg.username) sym_assume(sym_and(c != ':', c != 0));
	cfg.password = sym_strn(0, 2, "password");
	for (char c : cfg.password) sym_assume(c != 0);
}
static note make(std::vector<message_container> &out, bool quiet)
{
	reactor_status_notifier n([&out](const message_container &m) { out.push_back(m); }, "key");
	note e;
	str d = quiet ? str("a b") : sym_strn(0, VLEN, "message"), id = quiet ? str("j1") : safe_id("id");
	switch (sym_pick(5, "notification")) {
	case 0: n.error(d); e.type = "error"; e.f = {{"message", d}}; sym_reach("error"); break;
	case 1: n.rejected_job(id, d); e.type = "job-status"; e.id = id; e.f = {{"status", "FAILED"}, {"message", d}}; sym_reach("rejected"); break;
	case 2: n.job_done(id); e.type = "job-status"; e.id = id; e.f = {{"status", "OK"}}; sym_reach("done"); break;
	case 3: n.job_failed(id, d); e.type = "job-status"; e.id = id; e.f = {{"status", "FAILED"}, {"message", d}}; sym_reach("failed"); break;
	case 4: n.rejected_jobs({id}, d); e.type = "job-status"; e.id = id; e.f = {{"status", "FAILED"}, {"message", d}}; sym_reach("rejected-several"); break;
	}
	return e;
}
// what the broker's notifier produces, arbitrary texts
NOINLINE static void t_texts()
{
	config(false);
	can_fail = false;
	status_notifier_handler h(cfg, helpers::create_null_logger());
	std::vector<message_container> out;
	note e = make(out, false);
	sym_assert(out.size() == 1 && out[0].key == "key", "a notification is not passed on once");
	run(h, out[0], e);
}
// any pattern of failures, several notifications in a row
NOINLINE static void t_failures()
{
	config(false);
	status_notifier_handler h(cfg, helpers::create_null_logger());
	for (int k = 0; k < NMSG; k++) {
		std::vector<message_container> out;
		note e = make(out, true);
		sym_assert(out.size() == 1, "a notification is not passed on once");
		run(h, out[0], e);
	}
	sym_reach("several");
}
// any configuration
NOINLINE static void t_config()
{
	config(true);
	status_notifier_handler h(cfg, helpers::create_null_logger());
	can_fail = sym_pick(2, "can-fail");
	std::vector<message_container> out;
	note e = make(out, true);
	run(h, out[0], e);
	sym_reach("config");
}
// arbitrary fields
NOINLINE static void t_fields()
{
	config(false);
	can_fail = false;
	status_notifier_handler h(cfg, helpers::create_null_logger());
	note e;
	uint32_t n = sym_pick(3, "fields");
	strs data;
	if (sym_pick(2, "type")) { e.type = "t"; data.push_back("type"); data.push_back("t"); }
	for (uint32_t i = 0; i < n; i++) {
		str k = sym_strn(1, 1, "name") + (i ? "B" : "a"), v = sym_str(i == 0 ? 1 : 0, "value");
		e.f.push_back({k, v});
		data.push_back(k); data.push_back(v);
	}
	if (sym_pick(2, "id")) { e.id = "x"; data.push_back("id"); data.push_back("x"); }
	run(h, message_container("key", "", data), e);
	sym_reach("fields");
}
// long texts, many fields, many notifications
NOINLINE static void t_long()
{
	config(false);
	static const size_t lens[] = {30, 300, 3000};
	size_t n = lens[sym_pick(3, "length")];
	uint32_t what = sym_pick(4, "what");
	str text;
	for (size_t i = 0; i < n; i++) text += i % 11 == 3 ? ' ' : i % 13 == 5 ? char(128 + i % 100) : char('!' + i % 90);
	text += sym_str(1, "last");
	if (what == 0) { cfg.username = str(n, 'u'); cfg.password = text; for (auto &c : cfg.password) if (c == 0) c = 'x'; cfg.address += "/" + str(n, 'a'); }
	status_notifier_handler h(cfg, helpers::create_null_logger());
	can_fail = false;
	str id = str(n - 1, 'j') + safe_id("id").substr(0, 1);
	std::vector<message_container> out;
	reactor_status_notifier f([&out](const message_container &m) { out.push_back(m); }, "key");
	std::vector<note> e;
	if (what == 1) { // several jobs at once
		strs ids;
		for (int i = 0; i < 30; i++) { ids.push_back(id + char('0' + i / 10) + char('0' + i % 10)); e.push_back({"job-status", ids.back(), {{"status", "FAILED"}, {"message", text}}}); }
		f.rejected_jobs(ids, text);
		sym_reach("many-rejected");
	} else if (what == 2) { // many fields
		note x; strs data;
		x.type = "t"; data = {"type", "t"};
		for (int i = 0; i < 40; i++) {
			str k = str("field") + char('0' + i / 10) + char('0' + i % 10), v = i == 37 ? text : i % 3 ? str("v") + char('0' + i % 10) : str("");
			x.f.push_back({k, v});
			data.push_back(k); data.push_back(v);
		}
		x.id = id; data.push_back("id"); data.push_back(id);
		e.push_back(x);
		out.push_back(message_container("key", "", data));
		sym_reach("many-fields");
	} else {
		f.job_failed(id, text); e.push_back({"job-status", id, {{"status", "FAILED"}, {"message", text}}});
		f.error(text); e.push_back({"error", "", {{"message", text}}});
		f.rejected_job(id, text); e.push_back({"job-status", id, {{"status", "FAILED"}, {"message", text}}});
		f.job_done(id); e.push_back({"job-status", id, {{"status", "OK"}}});
		sym_reach("long");
	}
	sym_assert(out.size() == e.size(), "not one notification is passed on per event");
	for (size_t i = 0; i < out.size(); i++) run(h, out[i], e[i]);
	if (what == 3) { // nothing is remembered from one notification to the next
		for (int i = 0; i < 12; i++) {
			can_fail = i == 11;
			if (i % 2) run(h, out[3], e[3]); else run(h, out[1], e[1]);
		}
	}
}
extern "C" void sym_main()
{
	steps = new std::vector<step>();
	cw().outcome = outcome;
	switch (sym_pick(5, "part")) {
	case 4: t_long(); break;
	case 0: t_texts(); break;
	case 1: t_failures(); break;
	case 2: t_config(); break;
	case 3: t_fields(); break;
	}
}
