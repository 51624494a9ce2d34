// C20: printable worker descriptions, directly and as recorded by a registration; progress messages.
#include "broker.h"
#include "helpers/string_to_hex.h"
#ifndef IDLEN
#define IDLEN 3
#endif
#ifndef DLEN
#define DLEN 2
#endif
#ifndef PFRAMES
#define PFRAMES 4
#endif
static int hexd(unsigned v) { return v < 10 ? (int) ('0' + v) : (int) ('a' + v - 10); }
// non-forking: does d start with the hexadecimal digits of id?
static int starts_hex(const str &d, const str &id)
{
	if (d.size() < 2 * id.size()) return 0;
	int r = 1;
	for (size_t i = 0; i < id.size(); i++) {
		unsigned c = (unsigned char) id[i];
		uint64_t hi = sym_ite((c >> 4) < 10, '0' + (c >> 4), 'a' + (c >> 4) - 10), lo = sym_ite((c & 15) < 10, '0' + (c & 15), 'a' + (c & 15) - 10);
		r = sym_and(r, sym_and((unsigned char) d[2 * i] == hi, (unsigned char) d[2 * i + 1] == lo));
	}
	return r;
}
static void check(const str &got, const str &id, const str &desc)
{
	sym_assert(starts_hex(got, id), "the description does not start with the identity in hexadecimal digits");
	str rest = got.substr(2 * id.size());
	if (desc.empty()) sym_assert(rest.empty(), "something follows the identity although no description was announced");
	else {
		sym_assert(rest.size() >= desc.size(), "the announced description is not part of the worker's description");
		int found = 0;
		for (size_t i = 0; i + desc.size() <= rest.size(); i++) found = sym_or(found, eqv(rest.substr(i, desc.size()), desc));
		sym_assert(found, "the announced description is not part of the worker's description");
	}
	trace_str("description", got);
}
NOINLINE static void t_direct()
{
	str id = sym_strn(0, IDLEN, "identity"), desc = sym_strn(0, DLEN, "description");
	sym_assert(starts_hex(helpers::string_to_hex(id), id) && helpers::string_to_hex(id).size() == 2 * id.size(), "a byte is not converted to two hexadecimal digits");
	worker w(id, "g", {});
	w.description = desc;
	check(w.get_description(), id, desc);
	sym_reach(desc.empty() ? "plain" : "described");
}
// all identities of the length ZeroMQ itself generates
NOINLINE static void t_zmq()
{
	str id = str(1, '\0') + sym_str(4, "identity");
	worker w(id, "g", {});
	check(w.get_description(), id, "");
	sym_reach("zmq");
}
NOINLINE static void t_registered()
{
	world w(sym_pick(2, "manager"));
	str id = sym_strn(1, 2, "identity");
	W a;
	a.id = id; a.hw = "g"; a.hdrs = {{"env", "c"}};
	a.desc = sym_strn(0, DLEN, "description");
	w.init_new(a);
	auto p = w.reg->find_worker_by_identity(id);
	sym_assert(p != nullptr, "the worker is not registered");
	check(p->get_description(), id, a.desc);
	sym_reach("registered");
}
NOINLINE static void t_progress()
{
	world w(sym_pick(2, "manager"));
	W a;
	a.id = str("\0A", 2); a.hw = "g"; a.hdrs = {{"env", "c"}};
	w.init_new(a);
	if (sym_pick(2, "busy")) w.eval("C", w.add_job("j", {{"env", "c"}}, {"p"}));
	int m = 1 + (int) sym_pick(2, "messages");
	for (int k = 0; k < m; k++) {
		strs f;
		int n = (int) sym_pick(k ? 3 : PFRAMES + 1, "frames");
		for (int i = 0; i < n; i++) f.push_back(sym_pick(2, "kind") ? sym_strn(0, i < 2 ? 2 : 1, "frame") : str("progress"));
		w.progress(sym_pick(2, "known") ? str("\0A", 2) : str("\0B", 2), f);
	}
	sym_reach("progress-sent");
}
extern "C" void sym_main()
{
	switch (sym_pick(4, "part")) {
	case 0: t_direct(); break;
	case 1: t_zmq(); break;
	case 2: t_registered(); break;
	case 3: t_progress(); break;
	}
}
