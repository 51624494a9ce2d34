// Runtime for symbolic execution: the out-of-line parts of libstdc++/libc that the sources need, in plain C++.
// These replace the shared libraries only; everything else (containers, strings, algorithms, shared_ptr,
// std::function, chrono arithmetic ...) is executed from the real libstdc++ headers.
#include <string>
#include <stdexcept>
#include <system_error>
#include <list>
#include <map>
#include <memory>
#include <functional>
#include <thread>
#include <chrono>
#include <new>
#include <typeinfo>
#include <optional>
#include <variant>
#include <any>
#include <unordered_map>
#include <mutex>
#include <condition_variable>
#include <future>
#include <ostream>
#include <stdarg.h>
#include <string.h>
#include <time.h>
#include <errno.h>
#include "sym.h"

extern "C" {
int sym_log_level = 1;
__attribute__((weak)) long long h_system_now_ns() { static long long t = 1700000000000000000ll; return t; }
__attribute__((weak)) long long h_steady_now_ns() { static long long t = 1000000000ll; return t; }
__attribute__((weak)) void h_sleep_ns(long long) {}
__attribute__((weak)) void h_thread_start(void *state) { (void) state; sym_fail("std::thread started but this harness models no threads"); }
__attribute__((weak)) void h_thread_join(unsigned long) { sym_fail("std::thread joined but this harness models no threads"); }
}

template class std::basic_string<char>;
namespace std
{
	template ostream &__ostream_insert(ostream &, const char *, streamsize);

	// ---- exceptions
	exception::~exception() noexcept {}
	const char *exception::what() const noexcept { return "std::exception"; }
	bad_exception::~bad_exception() noexcept {}
	const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
	bad_alloc::~bad_alloc() noexcept {}
	const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {}
	const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {}
	const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
	bad_typeid::~bad_typeid() noexcept {}
	const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
	bad_weak_ptr::~bad_weak_ptr() noexcept {}
	const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
	bad_function_call::~bad_function_call() noexcept {}
	const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
	type_info::~type_info() {}
	bool type_info::__is_pointer_p() const { return false; }
	bool type_info::__is_function_p() const { return false; }
	bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
	bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }

	static const char *dupmsg(const char *p, size_t n) { char *q = (char *) ::operator new(n + 1); memcpy(q, p, n); q[n] = 0; return q; }
	__cow_string::__cow_string() : _M_p("") {}
	__cow_string::__cow_string(const std::string &s) : _M_p(dupmsg(s.data(), s.size())) {}
	__cow_string::__cow_string(const char *s, size_t n) : _M_p(dupmsg(s, n)) {}
	__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupmsg(o._M_p, strlen(o._M_p))) {}
	__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
	__cow_string::~__cow_string() {}
	__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
	__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

#define EXC(B) \
	B::B(const string &s) : _M_msg(s) {} \
	B::B(const char *s) : _M_msg(s, strlen(s)) {} \
	B::B(const B &o) noexcept : exception(o), _M_msg(o._M_msg) {} \
	B &B::operator=(const B &o) noexcept { _M_msg = o._M_msg; return *this; } \
	B::B(B &&o) noexcept : _M_msg(o._M_msg) {} \
	B &B::operator=(B &&o) noexcept { _M_msg = o._M_msg; return *this; } \
	B::~B() noexcept {} \
	const char *B::what() const noexcept { return _M_msg._M_p; }
	EXC(logic_error)
	EXC(runtime_error)
#define SUB(D, B) \
	D::D(const string &s) : B(s) {} \
	D::D(const char *s) : B(s) {} \
	D::~D() noexcept {}
	SUB(domain_error, logic_error)
	SUB(invalid_argument, logic_error)
	SUB(length_error, logic_error)
	SUB(out_of_range, logic_error)
	SUB(range_error, runtime_error)
	SUB(overflow_error, runtime_error)
	SUB(underflow_error, runtime_error)

	// ---- system_error (messages are not modelled)
	error_category::~error_category() noexcept {}
	error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
	bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
	bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
	struct sym_cat : public error_category { const char *name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
	static sym_cat g_gen, g_sys;
	namespace _V2 {
		const error_category &generic_category() noexcept { return g_gen; }
		const error_category &system_category() noexcept { return g_sys; }
	}
	error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
	system_error::~system_error() noexcept {}
	void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }

	void __throw_bad_exception() { throw bad_exception(); }
	void __throw_bad_alloc() { throw bad_alloc(); }
	void __throw_bad_array_new_length() { throw bad_array_new_length(); }
	void __throw_bad_cast() { throw bad_cast(); }
	void __throw_bad_typeid() { throw bad_typeid(); }
	void __throw_logic_error(const char *s) { throw logic_error(s); }
	void __throw_domain_error(const char *s) { throw domain_error(s); }
	void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
	void __throw_length_error(const char *s) { throw length_error(s); }
	void __throw_out_of_range(const char *s) { throw out_of_range(s); }
	void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
	void __throw_runtime_error(const char *s) { throw runtime_error(s); }
	void __throw_range_error(const char *s) { throw range_error(s); }
	void __throw_overflow_error(const char *s) { throw overflow_error(s); }
	void __throw_underflow_error(const char *s) { throw underflow_error(s); }
	void __throw_bad_function_call() { throw bad_function_call(); }

	// ---- red-black trees
	static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) noexcept
	{
		if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_right) { x = y; y = y->_M_parent; }
		if (x->_M_right != y) x = y;
		return x;
	}
	static _Rb_tree_node_base *dcr(_Rb_tree_node_base *x) noexcept
	{
		if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
		if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_left) { x = y; y = y->_M_parent; }
		return y;
	}
	_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
	const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
	_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dcr(x); }
	const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dcr(const_cast<_Rb_tree_node_base *>(x)); }
	static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root)
	{
		_Rb_tree_node_base *y = x->_M_right;
		x->_M_right = y->_M_left;
		if (y->_M_left) y->_M_left->_M_parent = x;
		y->_M_parent = x->_M_parent;
		if (x == root) root = y;
		else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
		else x->_M_parent->_M_right = y;
		y->_M_left = x;
		x->_M_parent = y;
	}
	static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root)
	{
		_Rb_tree_node_base *y = x->_M_left;
		x->_M_left = y->_M_right;
		if (y->_M_right) y->_M_right->_M_parent = x;
		y->_M_parent = x->_M_parent;
		if (x == root) root = y;
		else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
		else x->_M_parent->_M_left = y;
		y->_M_right = x;
		x->_M_parent = y;
	}
	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
	{
		_Rb_tree_node_base *&root = h._M_parent;
		x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
		if (left) {
			p->_M_left = x;
			if (p == &h) { h._M_parent = x; h._M_right = x; }
			else if (p == h._M_left) h._M_left = x;
		} else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
		while (x != root && x->_M_parent->_M_color == _S_red) {
			_Rb_tree_node_base *const g = x->_M_parent->_M_parent;
			if (x->_M_parent == g->_M_left) {
				_Rb_tree_node_base *const y = g->_M_right;
				if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
				else {
					if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
					x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root);
				}
			} else {
				_Rb_tree_node_base *const y = g->_M_left;
				if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
				else {
					if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
					x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root);
				}
			}
		}
		root->_M_color = _S_black;
	}
	_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
	{
		_Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
		_Rb_tree_node_base *y = z, *x = 0, *xp = 0;
		if (y->_M_left == 0) x = y->_M_right;
		else if (y->_M_right == 0) x = y->_M_left;
		else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
		if (y != z) {
			z->_M_left->_M_parent = y;
			y->_M_left = z->_M_left;
			if (y != z->_M_right) {
				xp = y->_M_parent;
				if (x) x->_M_parent = y->_M_parent;
				y->_M_parent->_M_left = x;
				y->_M_right = z->_M_right;
				z->_M_right->_M_parent = y;
			} else xp = y;
			if (root == z) root = y;
			else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
			else z->_M_parent->_M_right = y;
			y->_M_parent = z->_M_parent;
			auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
			y = z;
		} else {
			xp = y->_M_parent;
			if (x) x->_M_parent = y->_M_parent;
			if (root == z) root = x;
			else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
			else z->_M_parent->_M_right = x;
			if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
			if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
		}
		if (y->_M_color != _S_red) {
			while (x != root && (x == 0 || x->_M_color == _S_black))
				if (x == xp->_M_left) {
					_Rb_tree_node_base *w = xp->_M_right;
					if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
					if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
					else {
						if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
						w->_M_color = xp->_M_color; xp->_M_color = _S_black;
						if (w->_M_right) w->_M_right->_M_color = _S_black;
						rotl(xp, root);
						break;
					}
				} else {
					_Rb_tree_node_base *w = xp->_M_left;
					if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
					if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
					else {
						if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
						w->_M_color = xp->_M_color; xp->_M_color = _S_black;
						if (w->_M_left) w->_M_left->_M_color = _S_black;
						rotr(xp, root);
						break;
					}
				}
			if (x) x->_M_color = _S_black;
		}
		return y;
	}
	// ---- lists
	namespace __detail
	{
		void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
		void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
		{
			if (this != last) {
				last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
				_List_node_base *const tmp = this->_M_prev;
				this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
			}
		}
		void _List_node_base::_M_reverse() noexcept
		{
			_List_node_base *t = this;
			do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this);
		}
		void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
		{
			if (x._M_next != &x) {
				if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
				else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
			} else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
		}
		// ---- hash tables
		static const unsigned long primes_[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557};
		size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (auto p : primes_) if (p >= n) { _M_next_resize = p; return p; } return 57557; }
		pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const
		{
			if (e + i > _M_next_resize || b == 1) { size_t want = e + i > b * 2 ? e + i : (b == 1 ? e + i : b * 2); if (want < e + i) want = e + i; if (e + i >= b || b == 1) return {true, _M_next_bkt(want < 11 ? 11 : want + 1)}; _M_next_resize = b; }
			return {false, 0};
		}
	}
	size_t _Hash_bytes(const void *p, size_t n, size_t seed)
	{
		const unsigned char *c = (const unsigned char *) p;
		size_t h = seed;
		for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
		return h;
	}
	size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

	namespace __exception_ptr
	{
		void exception_ptr::_M_addref() noexcept {}
		void exception_ptr::_M_release() noexcept {}
	}
	nested_exception::~nested_exception() noexcept {}
	// ---- threads, clocks
	thread::_State::~_State() {}
	void thread::_M_start_thread(_State_ptr s, void (*)()) { static unsigned long n; unsigned long me = ++n; *(unsigned long *) (void *) &_M_id = me; h_thread_start(s.release()); }
	void thread::join() { h_thread_join(*(unsigned long *) (void *) &_M_id); _M_id = id(); }
	void thread::detach() { _M_id = id(); }
	unsigned int thread::hardware_concurrency() noexcept { return 1; }
	namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds n) { h_sleep_ns(s.count() * 1000000000ll + n.count()); } }
	namespace chrono { inline namespace _V2 {
		system_clock::time_point system_clock::now() noexcept { return time_point(duration(h_system_now_ns())); }
		steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(h_steady_now_ns())); }
	} }
	const nothrow_t nothrow{};
}
extern "C" {
static int g_errno;
int *__errno_location() { return &g_errno; }
int nanosleep(const struct timespec *t, struct timespec *) { h_sleep_ns(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
int usleep(unsigned us) { h_sleep_ns(us * 1000ll); return 0; }
unsigned sleep(unsigned s) { h_sleep_ns(s * 1000000000ll); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { long long v = c == CLOCK_REALTIME ? h_system_now_ns() : h_steady_now_ns(); t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll; return 0; }
time_t time(time_t *p) { time_t v = h_system_now_ns() / 1000000000ll; if (p) *p = v; return v; }
char *getenv(const char *) { return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return (unsigned) (c - '0') < 10; }
int isalpha(int c) { return (unsigned) ((c | 32) - 'a') < 26; }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return (unsigned) (c - 'A') < 26; }
int islower(int c) { return (unsigned) (c - 'a') < 26; }
int isxdigit(int c) { return isdigit(c) || (unsigned) ((c | 32) - 'a') < 6; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (unsigned) c < 32 || c == 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static unsigned long long conv(const char *s, char **end, int base, bool sgn, bool &neg, bool &ov, unsigned long long lim)
{
	const char *p = s;
	while (isspace((unsigned char) *p)) p++;
	neg = false; ov = false;
	if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char) p[2])) { base = 16; p += 2; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long r = 0;
	bool any = false;
	for (;;) {
		unsigned c = (unsigned char) *p, d;
		if (c >= '0' && c <= '9') d = c - '0';
		else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
		else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
		else break;
		if (d >= (unsigned) base) break;
		any = true;
		if (!ov) { if (r > lim / (unsigned) base || (r == lim / (unsigned) base && d > lim % (unsigned) base)) ov = true; else r = r * (unsigned) base + d; }
		p++;
	}
	(void) sgn;
	if (end) *end = (char *) (any ? p : s);
	if (ov) g_errno = ERANGE;
	return r;
}
unsigned long long strtoull(const char *s, char **e, int b) { bool n, o; auto r = conv(s, e, b, false, n, o, ~0ull); if (o) return ~0ull; return n ? 0 - r : r; }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
static long long sgn(const char *s, char **e, int b)
{
	bool n, o;
	auto r = conv(s, e, b, true, n, o, ~0ull);
	unsigned long long lim = 0x7fffffffffffffffull + (n ? 1 : 0);
	if (o || r > lim) { g_errno = ERANGE; return n ? (long long) 0x8000000000000000ull : 0x7fffffffffffffffll; }
	return (long long) (n ? 0 - r : r);
}
long long strtoll(const char *s, char **e, int b) { return sgn(s, e, b); }
long strtol(const char *s, char **e, int b) { return sgn(s, e, b); }
unsigned long rt_strtoul(const char *, char **, int) __asm__("strtoul");
unsigned long rt_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long long rt_strtoull(const char *, char **, int) __asm__("strtoull");
unsigned long long rt_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
long rt_strtol(const char *, char **, int) __asm__("strtol");
long rt_strtol(const char *s, char **e, int b) { return sgn(s, e, b); }
long long rt_strtoll(const char *, char **, int) __asm__("strtoll");
long long rt_strtoll(const char *s, char **e, int b) { return sgn(s, e, b); }
char *rt_strchr(const char *s, int c) __asm__("strchr");
char *rt_strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char x = (unsigned char) a[i], y = (unsigned char) b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char) *a), y = tolower((unsigned char) *b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char) *a), y = tolower((unsigned char) *b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) malloc(n); memcpy(p, s, n); return p; }
int vsnprintf(char *out, size_t cap, const char *f, va_list ap)
{
	size_t n = 0;
	auto put = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
	for (; *f; f++) {
		if (*f != '%') { put(*f); continue; }
		f++;
		char fill = ' '; int w = 0, lng = 0; bool left = false;
		for (;; f++) { if (*f == '0') fill = '0'; else if (*f == '-') left = true; else if (*f != '+' && *f != ' ' && *f != '#') break; }
		if (*f == '*') { w = va_arg(ap, int); f++; }
		while (*f >= '0' && *f <= '9') { w = w * 10 + (*f - '0'); f++; }
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h') { if (*f == 'h') lng--; else lng++; f++; }
		char tmp[40]; int k = 40; const char *s = 0; size_t sl = 0;
		if (*f == '%') { put('%'); continue; }
		else if (*f == 'c') { tmp[--k] = (char) va_arg(ap, int); s = tmp + k; sl = 1; }
		else if (*f == 's') { s = va_arg(ap, const char *); sl = strlen(s); }
		else {
			unsigned long long v; bool neg = false;
			if (*f == 'd' || *f == 'i') { long long x = lng > 0 ? va_arg(ap, long long) : va_arg(ap, int); if (lng == -2) x = (signed char) x; neg = x < 0; v = neg ? 0 - (unsigned long long) x : (unsigned long long) x; }
			else { v = lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); if (lng == -2) v &= 0xff; if (lng == -1) v &= 0xffff; }
			unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10, up = *f == 'X' ? 7 : 39;
			do { unsigned d = (unsigned) (v % base); tmp[--k] = (char) ('0' + d + (unsigned) (d > 9) * up); v /= base; } while (v);
			if (neg) tmp[--k] = '-';
			s = tmp + k; sl = (size_t) (40 - k);
		}
		if (!left) for (size_t i = sl; i < (size_t) w; i++) put(fill);
		for (size_t i = 0; i < sl; i++) put(s[i]);
		if (left) for (size_t i = sl; i < (size_t) w; i++) put(' ');
	}
	if (cap) out[n < cap ? n : cap - 1] = 0;
	return (int) n;
}
int snprintf(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
int sprintf(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, 1u << 20, f, ap); va_end(ap); return r; }
int printf(const char *, ...) { return 0; }
int puts(const char *) { return 0; }
}
