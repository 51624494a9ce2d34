// A model of the ZeroMQ C interface: sockets are queues in memory. ROUTER and DEALER semantics as documented:
// messages are delivered whole, a router drops messages for unknown peers, a dealer's messages reach the router with
// the dealer's identity in front. Failures only where libzmq can fail (EINTR/ETERM), injected by the harness.
#pragma once
#include "common.h"
#include <zmq.h>
#include <errno.h>
#include <string.h>
#include <deque>
#include <thread>

struct zsock {
	int type = 0, id = 0, user = -1;
	str addr, identity;
	bool bound = false, connected = false, closed = false;
	strs partial; // frames sent so far of an unfinished message
	std::deque<strs> in;
	size_t pos = 0; // next frame of in.front()
	bool mid = false; // in the middle of receiving a message
	std::vector<strs> sent; // completed outgoing messages (tcp)
	zsock *router = nullptr; // inproc peer
	std::vector<zsock *> dealers;
};
struct zworld {
	std::vector<zsock *> socks;
	int err = 0;
	int send_calls = 0, recv_calls = 0;
	int fail_recv_at = -1, fail_send_at = -1; // number of the call that fails
	int preempt = 0; // remaining preemptions
	bool threads = false;
	bool late_start = false; // new threads may start late
	str busy_address; // somebody else listens there
	void (*on_poll)(zmq_pollitem_t *, int) = nullptr;
	void (*on_sent)(zsock *, const strs &) = nullptr;
};
inline zworld &zw() { static zworld *w = new zworld(); return *w; }

// ---- cooperative threads for std::thread
struct zstate { virtual ~zstate() {} virtual void _M_run() = 0; }; // laid out like std::thread::_State, which is private
struct zthread { zstate *st; int tid; bool done; struct zsock *waits; };
inline std::vector<zthread *> &zthreads() { static auto *t = new std::vector<zthread *>(); return *t; }
static inline void z_thread_main(void *p)
{
	zthread *t = (zthread *) p;
	t->st->_M_run();
	t->done = true;
	// like the real library, the state is destroyed by the thread when it ends
	delete t->st;
	for (;;) sym_switch(0);
}
inline zthread *z_me() { for (auto t : zthreads()) if (t->tid == sym_self()) return t; return nullptr; }
// let some other thread run
static inline bool z_yield()
{
	int me = sym_self();
	if (me != 0) { sym_switch(0); return true; }
	std::vector<zthread *> r;
	for (auto t : zthreads()) if (!t->done && (!t->waits || !t->waits->in.empty())) r.push_back(t);
	if (r.empty()) return false;
	sym_switch(r[r.size() > 1 ? sym_pick((uint32_t) r.size(), "run") : 0]->tid);
	return true;
}
static inline void z_preempt()
{
	if (!zw().threads || zthreads().empty() || zw().preempt <= 0) return;
	if (sym_self() == 0) { bool any = false; for (auto t : zthreads()) any |= !t->done && (!t->waits || !t->waits->in.empty()); if (!any) return; }
	if (sym_pick(2, "preempt")) { zw().preempt--; z_yield(); }
}
extern "C" inline void h_thread_start_impl(void *s)
{
	zthread *t = new zthread{(zstate *) s, 0, false, nullptr};
	t->tid = sym_thread_create(z_thread_main, t);
	zthreads().push_back(t);
	// it runs at once, or not before the others wait
	if (zw().late_start && sym_pick(2, "starts-late")) return;
	sym_switch(t->tid);
}
#define ZSTUB_THREADS \
	extern "C" void h_thread_start(void *s) { h_thread_start_impl(s); } \
	extern "C" void h_thread_join(unsigned long id) { int n = 0; if (id < 1 || id > zthreads().size()) sym_fail("a thread is joined that was not started"); while (!zthreads()[id - 1]->done) { if (++n > 40) sym_fail("a thread is joined but never ends"); if (!z_yield()) sym_fail("a thread is joined but waits for ever"); } }

struct zmsgrep { char *data; size_t size; int more; int magic; };
static_assert(sizeof(zmsgrep) <= sizeof(zmq_msg_t), "");
static inline zmsgrep *rep(const zmq_msg_t *m) { return (zmsgrep *) (void *) m; }
static inline int z_fail(int e) { zw().err = e; errno = e; return -1; }
static inline void z_use(zsock *s)
{
	if (s->closed) sym_fail("a closed socket is used");
	if (s->user >= 0 && s->user != sym_self()) sym_fail("a socket is used by two threads");
	s->user = sym_self();
}
static inline void z_deliver(zsock *s)
{
	strs m;
	m.swap(s->partial);
	if (zw().on_sent) zw().on_sent(s, m);
	if (s->router) { strs x = {s->identity}; for (auto &f : m) x.push_back(f); s->router->in.push_back(x); return; }
	if (s->type == ZMQ_ROUTER && !s->dealers.empty()) {
		if (m.size() < 1) return;
		for (auto d : s->dealers) if (d->identity == m[0] && !d->closed) { strs x(m.begin() + 1, m.end()); if (!x.empty()) d->in.push_back(x); return; }
		return; // unroutable
	}
	s->sent.push_back(m);
}
static inline int z_send(void *p, const char *d, size_t n, int flags)
{
	zsock *s = (zsock *) p;
	z_use(s);
	int k = zw().send_calls++;
	// only the first frame of a message can be refused
	if (k == zw().fail_send_at && s->partial.empty()) return z_fail(EINTR);
	s->partial.push_back(str(d, n));
	if (!(flags & ZMQ_SNDMORE)) { z_deliver(s); z_preempt(); } // others see whole messages only
	return (int) n;
}
static inline int z_recv(void *p, zmq_msg_t *m, int flags)
{
	zsock *s = (zsock *) p;
	z_use(s);
	if (!s->mid) z_preempt();
	int k = zw().recv_calls++;
	if (k == zw().fail_recv_at) return z_fail(EINTR);
	int spins = 0;
	while (!s->mid && s->in.empty()) {
		if (flags & ZMQ_DONTWAIT) return z_fail(EAGAIN);
		zthread *t = z_me();
		if (t) t->waits = s;
		if (!z_yield() || ++spins > 100) sym_fail("a receive waits for ever");
		if (t) t->waits = nullptr;
	}
	str f = s->in.front()[s->pos++];
	bool more = s->pos < s->in.front().size();
	if (!more) { s->in.pop_front(); s->pos = 0; }
	s->mid = more;
	zmq_msg_close(m);
	zmq_msg_init_size(m, f.size());
	if (f.size()) memcpy(rep(m)->data, f.data(), f.size());
	rep(m)->more = more;
	return (int) f.size();
}
extern "C" {
static int z_ctx_dummy;
void *zmq_ctx_new() { return &z_ctx_dummy; }
int zmq_ctx_set(void *, int, int) { return 0; }
int zmq_ctx_get(void *, int) { return 0; }
int zmq_ctx_term(void *) { return 0; }
int zmq_ctx_destroy(void *) { return 0; }
int zmq_ctx_shutdown(void *) { return 0; }
void *zmq_socket(void *, int type) { zsock *s = new zsock(); s->type = type; s->id = (int) zw().socks.size(); zw().socks.push_back(s); return s; }
int zmq_close(void *s) { ((zsock *) s)->closed = true; return 0; }
int zmq_setsockopt(void *p, int o, const void *v, size_t n) { zsock *s = (zsock *) p; if (o == ZMQ_IDENTITY) s->identity = str((const char *) v, n); return 0; }
int zmq_getsockopt(void *p, int o, void *v, size_t *n) { if (o == ZMQ_RCVMORE) { *(int *) v = ((zsock *) p)->mid; *n = sizeof(int); return 0; } return z_fail(EINVAL); }
int zmq_bind(void *p, const char *a) { zsock *s = (zsock *) p; if (zw().busy_address.size() && zw().busy_address == a) return z_fail(EADDRINUSE); s->addr = a; s->bound = true; return 0; }
int zmq_unbind(void *p, const char *) { ((zsock *) p)->bound = false; return 0; }
int zmq_disconnect(void *p, const char *) { ((zsock *) p)->connected = false; return 0; }
int zmq_connect(void *p, const char *a)
{
	zsock *s = (zsock *) p;
	s->addr = a; s->connected = true;
	if (s->addr.compare(0, 9, "inproc://") == 0) {
		for (auto r : zw().socks) if (r->bound && r->addr == s->addr) { s->router = r; r->dealers.push_back(s); return 0; }
		sym_fail("an in-process connection to an address nobody is bound to");
	}
	return 0;
}
int zmq_send(void *s, const void *d, size_t n, int f) { return z_send(s, (const char *) d, n, f); }
int zmq_msg_init(zmq_msg_t *m) { *rep(m) = zmsgrep{nullptr, 0, 0, 0x5a5a}; return 0; }
int zmq_msg_init_size(zmq_msg_t *m, size_t n) { *rep(m) = zmsgrep{new char[n + 1], n, 0, 0x5a5a}; return 0; }
int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, zmq_free_fn *ffn, void *hint) { zmq_msg_init_size(m, n); if (n) memcpy(rep(m)->data, d, n); if (ffn) ffn(d, hint); return 0; }
int zmq_msg_close(zmq_msg_t *m) { delete[] rep(m)->data; rep(m)->data = nullptr; rep(m)->size = 0; return 0; }
void *zmq_msg_data(zmq_msg_t *m) { return rep(m)->data ? rep(m)->data : (char *) (rep(m) + 1); }
size_t zmq_msg_size(const zmq_msg_t *m) { return rep(m)->size; }
int zmq_msg_more(const zmq_msg_t *m) { return rep(m)->more; }
int zmq_msg_get(const zmq_msg_t *m, int o) { return o == ZMQ_MORE ? rep(m)->more : z_fail(EINVAL); }
int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s) { delete[] rep(d)->data; *rep(d) = *rep(s); zmq_msg_init(s); return 0; }
int zmq_msg_copy(zmq_msg_t *d, zmq_msg_t *s) { delete[] rep(d)->data; zmq_msg_init_size(d, rep(s)->size); if (rep(s)->size) memcpy(rep(d)->data, rep(s)->data, rep(s)->size); rep(d)->more = rep(s)->more; return 0; }
int zmq_msg_send(zmq_msg_t *m, void *s, int f) { int r = z_send(s, rep(m)->data, rep(m)->size, f); if (r >= 0) { zmq_msg_close(m); zmq_msg_init(m); } return r; }
int zmq_msg_recv(zmq_msg_t *m, void *s, int f) { return z_recv(s, m, f); }
int zmq_recv(void *s, void *b, size_t n, int f) { zmq_msg_t m; zmq_msg_init(&m); int r = z_recv(s, &m, f); if (r > 0) memcpy(b, rep(&m)->data, (size_t) r < n ? (size_t) r : n); zmq_msg_close(&m); return r; }
int zmq_errno() { return zw().err; }
const char *zmq_strerror(int) { return "zmq error"; }
void zmq_version(int *a, int *b, int *c) { *a = 4; *b = 3; *c = 5; }
int zmq_poll(zmq_pollitem_t *items, int n, long)
{
	int r = 0;
	if (zw().on_poll) zw().on_poll(items, n);
	for (int i = 0; i < n; i++) {
		zsock *s = (zsock *) items[i].socket;
		items[i].revents = 0;
		if (s && (items[i].events & ZMQ_POLLIN) && (s->mid || !s->in.empty())) { items[i].revents = ZMQ_POLLIN; r++; }
	}
	return r;
}
}
