// C17: the configuration reader over arbitrary documents.
#include "yamlh.h"
#include "config/broker_config.h"
#ifndef NDIG
#define NDIG 5
#endif
#ifndef SLEN
#define SLEN 2
#endif
#ifndef NVARY
#define NVARY 2
#endif
enum kind { STR, PORT, SIZE, INTERVAL, FILE_ };
struct setting { const char *section, *key; kind k; const char *dstr; unsigned long long dnum; };
static const setting S[] = {
	{"", "queue_manager", STR, "single", 0},
	{"clients", "address", STR, "*", 0},
	{"clients", "port", PORT, "", 0},
	{"workers", "address", STR, "*", 0},
	{"workers", "port", PORT, "", 0},
	{"workers", "max_liveness", SIZE, "", 4},
	{"workers", "max_request_failures", SIZE, "", 3},
	{"workers", "ping_interval", INTERVAL, "", 1000},
	{"monitor", "address", STR, "127.0.0.1", 0},
	{"monitor", "port", PORT, "", 7894},
	{"notifier", "address", STR, "", 0},
	{"notifier", "port", PORT, "", 0},
	{"notifier", "username", STR, "", 0},
	{"notifier", "password", STR, "", 0},
	{"logger", "file", FILE_, "/var/log/recodex/\nbroker", 0},
	{"logger", "level", STR, "debug", 0},
	{"logger", "max-size", SIZE, "", 1024 * 1024},
	{"logger", "rotations", SIZE, "", 3},
};
static const int N = sizeof(S) / sizeof(S[0]);
static const char *const SECTIONS[] = {"clients", "workers", "monitor", "notifier", "logger"};
struct value { bool given = false, bad = false, tree = false; YAML::Node node; str s; unsigned long long n = 0; };
static str dec(unsigned long long v) { str r; do r.insert(r.begin(), char('0' + v % 10)); while (v /= 10); return r; }
static value absent(int i) { value v; v.s = S[i].dstr; v.n = S[i].dnum; return v; }
static value text(int, const str &s, const str &expect) { value v; v.given = true; v.node = y_scalar(s); v.s = expect; return v; }
static value number(int i, const str &s, unsigned long long n, bool fits)
{
	value v;
	v.given = true; v.node = y_scalar(s); v.n = n;
	v.bad = !fits;
	return v;
}
// a fixed value different from the default
static value present(int i)
{
	switch (S[i].k) {
	case STR: return text(i, str("val") + char('A' + i), str("val") + char('A' + i));
	case FILE_: return text(i, "/some/where/log", "/some/where\nlog");
	default: return number(i, dec(100 + i), 100 + i, true);
	}
}
static value varying(int i)
{
	str nm = str("v") + char('A' + i);
	switch (S[i].k) {
	case STR:
		switch (sym_pick(3, "state")) {
		case 0: return absent(i);
		case 1: { str s = sym_strn(0, SLEN, nm.c_str()); sym_reach("text"); return text(i, s, s); }
		default: break;
		}
		break;
	case FILE_:
		switch (sym_pick(5, "state")) {
		case 0: return absent(i);
		case 1: { str s = sym_strn(1, SLEN, nm.c_str()); for (char c : s) sym_assume(sym_and(c != '/', sym_and(c != '.', c != 0))); return text(i, s, "\n" + s); }
		case 2: { str s = sym_strn(1, SLEN, nm.c_str()); for (char c : s) sym_assume(sym_and(c != '/', sym_and(c != '.', c != 0))); return text(i, "/" + s, "/\n" + s); }
		case 3: { str s = sym_str(2, nm.c_str()); for (char c : s) sym_assume(sym_and(c != '/', sym_and(c != '.', c != 0))); sym_reach("file"); return text(i, "dir/" + s.substr(0, 1) + "/b." + s.substr(1), "dir/" + s.substr(0, 1) + "\nb." + s.substr(1)); }
		default: break;
		}
		break;
	default: {
		bool port = S[i].k == PORT;
		switch (sym_pick(7, "state")) {
		case 0: return absent(i);
		case 1: {
			uint32_t n = 1 + sym_pick(NDIG, "digits");
			str s = sym_digits(n, nm.c_str());
			if (n > 1) sym_assume(s[0] != '0');
			unsigned long long x = 0;
			for (char c : s) x = x * 10 + (unsigned long long) (c - '0');
			sym_reach("number");
			value v = number(i, s, x, true);
			if (port) { bool b = x > 65535; v.bad = b; if (b) sym_reach("port-too-large"); }
			return v;
		}
		case 2: {
			static const char *const big[] = {"65535", "65536", "65537", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "100000000000000000000000"};
			static const unsigned long long val[] = {65535, 65536, 65537, 4294967295ull, 4294967296ull, 4294967297ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull, 0, 0, 0};
			uint32_t k = sym_pick(12, "big");
			sym_reach("boundary");
			return number(i, big[k], val[k], k < 9 && !(port && k > 0) && !(S[i].k == INTERVAL && k > 6));
		}
		case 3: { // not a number
			str s = sym_strn(1, 2, nm.c_str());
			char c = s.back();
			sym_assume(sym_or(sym_and(c >= 'g', c <= 'w'), sym_or(c == ':', sym_or(c == '-', c == '.'))));
			sym_reach("not-a-number");
			return number(i, s, 0, false);
		}
		case 4: { // negative
			str s = sym_digits(1, nm.c_str());
			sym_assume(s[0] != '0');
			sym_reach("negative");
			return number(i, "-" + s, 0, false);
		}
		case 5: return number(i, "", 0, false);
		default: break;
		}
	}
	}
	// something else than a scalar is as good as nothing
	value v = absent(i);
	v.tree = true;
	switch (sym_pick(3, "other-kind")) {
	case 0: v.node = y_null(); break;
	case 1: v.node = y_seq(); y_push(v.node, y_scalar("7")); break;
	case 2: v.node = y_map(); y_put(v.node, "address", y_scalar("1")); break;
	}
	sym_reach("other-kind");
	return v;
}
static str gs(const broker_config &c, int i)
{
	switch (i) {
	case 0: return c.get_queue_manager();
	case 1: return c.get_client_address();
	case 3: return c.get_worker_address();
	case 8: return c.get_monitor_address();
	case 10: return c.get_notifier_config().address;
	case 12: return c.get_notifier_config().username;
	case 13: return c.get_notifier_config().password;
	case 14: return c.get_log_config().log_path + "\n" + c.get_log_config().log_basename;
	case 15: return c.get_log_config().log_level;
	}
	sym_fail("?");
	return "";
}
static unsigned long long gn(const broker_config &c, int i)
{
	switch (i) {
	case 2: return c.get_client_port();
	case 4: return c.get_worker_port();
	case 5: return c.get_max_worker_liveness();
	case 6: return c.get_max_request_failures();
	case 7: return (unsigned long long) c.get_worker_ping_interval().count();
	case 9: return c.get_monitor_port();
	case 11: return c.get_notifier_config().port;
	case 16: return c.get_log_config().log_file_size;
	case 17: return c.get_log_config().log_files_count;
	}
	sym_fail("?");
	return 0;
}
static bool is_text(int i) { return S[i].k == STR || S[i].k == FILE_; }
NOINLINE static void load(const YAML::Node &doc, const std::vector<value> &v, bool bad)
{
	bool threw = false;
	broker_config *c = nullptr;
	try {
		c = new broker_config(doc);
	} catch (config_error &) { threw = true; }
	if (bad) {
		sym_assert(threw, "an unusable value was accepted");
		sym_reach("rejected");
		return;
	}
	sym_assert(!threw, "a valid configuration was rejected");
	sym_reach("accepted");
	for (int i = 0; i < N; i++) {
		if (is_text(i)) {
			str g = gs(*c, i);
			sym_assert(eqv(g, v[i].s), v[i].given ? "a setting does not have the configured value" : "an absent setting does not have its default");
			sym_tracev("len", g.size());
		} else {
			unsigned long long g = gn(*c, i);
			sym_assert(g == v[i].n, v[i].given ? "a setting does not have the configured value" : "an absent setting does not have its default");
			sym_tracev(S[i].key, g);
		}
	}
}
static void put(YAML::Node &doc, std::vector<value> &v, bool extra)
{
	if (extra) y_put(doc, "unrelated", y_scalar("x"));
	for (auto sec : SECTIONS) {
		bool any = false;
		YAML::Node m = y_map();
		if (extra) { y_put(m, "unrelated", y_scalar("5")); any = true; }
		for (int i = 0; i < N; i++) if (str(S[i].section) == sec && (v[i].given || v[i].tree)) { y_put(m, S[i].key, v[i].node); any = true; }
		if (any) y_put(doc, sec, m);
	}
	if (v[0].given || v[0].tree) y_put(doc, "queue_manager", v[0].node);
}
// arbitrary values of any NVARY settings, the others all absent or all present
NOINLINE static void t_values()
{
	std::vector<value> v;
	bool rest = sym_pick(2, "rest-present");
	int at[NVARY];
	int from = 0;
	for (int k = 0; k < NVARY; k++) { at[k] = from + (int) sym_pick((uint32_t) (N - from - (NVARY - 1 - k)), "setting"); from = at[k] + 1; }
	bool bad = false;
	for (int i = 0; i < N; i++) {
		bool vary = false;
		for (int k = 0; k < NVARY; k++) vary |= at[k] == i;
		v.push_back(vary ? varying(i) : rest ? present(i) : absent(i));
		bad |= v.back().bad;
	}
	YAML::Node doc = y_map();
	put(doc, v, rest);
	load(doc, v, bad);
}
// any subset of settings present
NOINLINE static void t_subsets()
{
	std::vector<value> v;
	for (int i = 0; i < N; i++) v.push_back(absent(i));
	// any subset within two sections, the others complete or missing
	uint32_t a = sym_pick(5, "section");
	bool rest = sym_pick(2, "rest-present");
	for (int i = 0; i < N; i++) {
		if (str(S[i].section) == SECTIONS[a] || !*S[i].section) { if (sym_pick(2, "present")) v[i] = present(i); }
		else if (rest) v[i] = present(i);
	}
	YAML::Node doc = y_map();
	put(doc, v, false);
	sym_reach("subsets");
	load(doc, v, false);
}
// sections or documents of the wrong kind
NOINLINE static void t_kinds()
{
	std::vector<value> v;
	for (int i = 0; i < N; i++) v.push_back(present(i));
	uint32_t k = sym_pick(4, "kind");
	YAML::Node other = k == 0 ? y_null() : k == 1 ? y_scalar("text") : k == 2 ? y_seq() : y_scalar("");
	if (k == 2) y_push(other, y_scalar("1"));
	if (sym_pick(2, "whole-document")) { sym_reach("no-map"); load(other, v, true); return; }
	uint32_t a = sym_pick(5, "section");
	for (int i = 0; i < N; i++) if (str(S[i].section) == SECTIONS[a]) v[i] = absent(i);
	YAML::Node doc = y_map();
	put(doc, v, false);
	y_put(doc, SECTIONS[a], other);
	sym_reach("section-kind");
	load(doc, v, false);
}
// long texts
NOINLINE static void t_long()
{
	static const size_t lens[] = {15, 16, 63, 256, 300};
	size_t n = lens[sym_pick(5, "length")];
	int at = (int) sym_pick((uint32_t) N, "setting");
	if (!is_text(at)) sym_kill();
	std::vector<value> v;
	for (int i = 0; i < N; i++) {
		str s(n, char('a' + i)), l = sym_str(1, "last");
		if (i != at) l = "z";
		if (S[i].k == FILE_) {
			sym_assume(sym_and(l[0] != '/', sym_and(l[0] != '.', l[0] != 0)));
			v.push_back(text(i, "/" + s + "/d.d/" + s + l, "/" + s + "/d.d\n" + s + l));
		} else if (S[i].k == STR) v.push_back(text(i, s + l, s + l));
		else v.push_back(present(i));
	}
	YAML::Node doc = y_map();
	put(doc, v, true);
	sym_reach("long");
	load(doc, v, false);
}
extern "C" void sym_main()
{
	switch (sym_pick(4, "part")) {
	case 3: t_long(); break;
	case 0: t_values(); break;
	case 1: t_subsets(); break;
	case 2: t_kinds(); break;
	}
}
