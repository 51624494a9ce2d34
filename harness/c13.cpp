// C13: router_socket_wrapper over the ZeroMQ model: framing of sent and received messages.
#include "zstub.h"
#include "reactor/router_socket_wrapper.h"
#ifndef NF
#define NF 3
#endif
#ifndef FL
#define FL 2
#endif
// long frames and many frames
static strs large(uint32_t k, const char *n)
{
	static const size_t lens[] = {255, 256, 257, 1000, 65536 + 9};
	if (k < 5) return {sym_str(1, n), str(lens[k] - 1, 'l') + sym_str(1, n), ""};
	strs d;
	for (int i = 0; i < (k == 5 ? 20 : 300); i++) d.push_back(i % 7 == 3 ? str("") : i % 100 == 99 ? sym_str(1, n) : str("f") + char('0' + i % 10));
	return d;
}
static strs frames(const char *n, uint32_t lo, uint32_t hi, uint32_t len)
{
	strs d;
	uint32_t k = lo + sym_pick(hi - lo + 1, "frames");
	for (uint32_t i = 0; i < k; i++) d.push_back(sym_strn(0, len, n));
	return d;
}
static zsock *last() { return zw().socks.back(); }
NOINLINE static void t_send()
{
	auto ctx = std::make_shared<zmq::context_t>();
	router_socket_wrapper w(ctx, "tcp://x", true);
	zsock *s = last();
	zw().fail_send_at = (int) sym_pick(4, "failing-send") - 1; // -1: none; 1..2: somewhere within or after the first message
	std::vector<strs> want;
	for (int m = 0; m < 2; m++) {
		message_container c;
		c.key = "workers";
		uint32_t big = m ? 0 : sym_pick(8, "large");
		if (big) { c.identity = big % 2 ? str(254, 'i') + sym_str(1, "identity") : "I"; c.data = large(big - 1, "frame"); sym_reach("sent-large"); }
		else { c.identity = m ? str("\0B", 2) : sym_strn(1, 3, "identity"); c.data = m ? strs{"", str("\0x\0", 3)} : frames("frame", 0, NF, FL); }
		int before = zw().send_calls;
		bool ok = w.send_message(c);
		bool refused = zw().fail_send_at == before;
		sym_tracev("sent", ok);
		sym_assert(s->partial.empty(), "a message was left unfinished, the next one would be glued to it");
		if (refused) {
			sym_assert(!ok, "a message the socket refused is reported as sent");
			sym_reach("refused");
		} else {
			sym_assert(ok, "a message is reported as not sent although nothing failed");
			strs f = {c.identity};
			for (auto &x : c.data) f.push_back(x);
			want.push_back(f);
			sym_reach(c.data.empty() ? "sent-empty" : "sent");
		}
	}
	sym_assert(s->sent.size() == want.size(), "not exactly one multipart message per message sent");
	for (size_t i = 0; i < want.size(); i++) sym_assert(eqvs(s->sent[i], want[i]), "a message was not sent as its identity followed by its frames");
}
NOINLINE static void t_receive()
{
	auto ctx = std::make_shared<zmq::context_t>();
	router_socket_wrapper w(ctx, "tcp://x", true);
	zsock *s = last();
	std::vector<strs> in;
	for (int m = 0; m < 2; m++) {
		uint32_t big = m ? 0 : sym_pick(8, "large");
		strs f;
		if (big) { f = large(big - 1, "frame"); f.insert(f.begin(), big % 2 ? str(254, 'i') + sym_str(1, "identity") : str("I")); sym_reach("received-large"); }
		else { f = {m ? str("\0B", 2) : sym_strn(1, 3, "identity")}; for (auto &x : m ? strs{"", str("\0x\0", 3)} : frames("frame", 0, NF, FL)) f.push_back(x); }
		in.push_back(f);
		s->in.push_back(f);
	}
	message_container t;
	t.key = "clients";
	if (sym_pick(2, "reused")) { t.identity = "old"; t.data = {"old1", "old2", "old3", "old4", "old5"}; }
	bool more = true;
	for (int m = 0; m < 2; m++) {
		bool ok = w.receive_message(t);
		sym_tracev("received", ok);
		sym_assert(ok, "a complete message was not received");
		sym_assert(eqv(t.identity, in[m][0]), "a message was not received with its sender's identity");
		sym_assert(eqvs(t.data, strs(in[m].begin() + 1, in[m].end())), "a message was not received with exactly its frames");
		sym_assert(t.key == "clients", "reception changed the key of the message");
		(void) more;
	}
	sym_assert(s->in.empty() && !s->mid, "a message was not received completely");
	sym_reach("received");
}
NOINLINE static void t_receive_failing()
{
	auto ctx = std::make_shared<zmq::context_t>();
	router_socket_wrapper w(ctx, "tcp://x", false);
	zsock *s = last();
	strs f = {"id"};
	for (auto &x : frames("frame", 0, NF, 1)) f.push_back(x);
	s->in.push_back(f);
	int at = (int) sym_pick(NF + 1, "failing-recv");
	zw().fail_recv_at = at;
	message_container t;
	bool ok = w.receive_message(t);
	if (at < (int) f.size()) {
		sym_assert(!ok, "a message whose reception failed is reported as received");
		sym_reach(at == 0 ? "recv-failed-first" : "recv-failed-later");
	} else {
		sym_assert(ok, "a complete message was not received");
		sym_assert(eqvs(t.data, strs(f.begin() + 1, f.end())), "a message was not received with exactly its frames");
	}
}
extern "C" void sym_main()
{
	switch (sym_pick(3, "part")) {
	case 0: t_send(); break;
	case 1: t_receive(); break;
	case 2: t_receive_failing(); break;
	}
}
