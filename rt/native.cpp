// Native replay of a solver assignment: the same sym_* API, values come from a file of "name index value" lines.
// Exit codes: 0 the run ended normally, 77 an assertion failed or the code crashed, 78 an assumption did not hold.
#include <map>
#include <string>
#include <chrono>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <vector>
#include <pthread.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include "sym.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define WITH_ASAN 1
#endif
#ifdef WITH_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void) 0)
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void) 0)
#endif

extern "C" {
int sym_log_level = 1;
__attribute__((weak)) long long h_system_now_ns() { return 1700000000000000000ll; }
__attribute__((weak)) long long h_steady_now_ns() { return 1000000000ll; }
__attribute__((weak)) void h_sleep_ns(long long) {}
__attribute__((weak)) void h_thread_start(void *) { abort(); }
__attribute__((weak)) void h_thread_join(unsigned long) { abort(); }
void sym_main();
}

// ---- allocation: never reused, ascending or descending addresses as the executor does, red zones poisoned
static char *g_lo, *g_hi;
static int g_dir;
static unsigned long long g_live[2];
static const size_t ARENA = 1ull << 30;
static void arena_init()
{
	if (g_lo) return;
	char *p = (char *) mmap(nullptr, 2 * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == (char *) MAP_FAILED) abort();
	g_lo = p + ARENA;
	g_hi = p + ARENA;
}
static void *arena_alloc(size_t n)
{
	arena_init();
	size_t tot = ((n + 15) & ~(size_t) 15) + 48;
	char *b;
	if (g_dir) { g_hi -= tot; b = g_hi; } else { b = g_lo; g_lo += tot; }
	*(size_t *) b = n;
	g_live[0]++; g_live[1] += n;
	memset(b + 16, 0xbe, n);
	ASAN_POISON_MEMORY_REGION(b, 16);
	ASAN_POISON_MEMORY_REGION(b + 16 + ((n + 7) & ~(size_t) 7), tot - 16 - ((n + 7) & ~(size_t) 7));
	if (n & 7) { ASAN_POISON_MEMORY_REGION(b + 16 + (n & ~(size_t) 7), 8); ASAN_UNPOISON_MEMORY_REGION(b + 16 + (n & ~(size_t) 7), n & 7); }
	return b + 16;
}
static void arena_free(void *p)
{
	if (!p) return;
	char *b = (char *) p - 16;
	ASAN_UNPOISON_MEMORY_REGION(b, 16);
	size_t n = *(size_t *) b;
	if (n == (size_t) -1) { fprintf(stderr, "REPLAY-VIOLATION double free\n"); _exit(77); }
	*(size_t *) b = (size_t) -1;
	g_live[0]--; g_live[1] -= n;
	ASAN_POISON_MEMORY_REGION(b, 16 + n);
}
void *operator new(size_t n) { return arena_alloc(n); }
void *operator new[](size_t n) { return arena_alloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return arena_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return arena_alloc(n); }
void operator delete(void *p) noexcept { arena_free(p); }
void operator delete[](void *p) noexcept { arena_free(p); }
void operator delete(void *p, size_t) noexcept { arena_free(p); }
void operator delete[](void *p, size_t) noexcept { arena_free(p); }

// ---- inputs
static std::map<std::pair<std::string, unsigned>, unsigned long long> *g_in;
static std::map<std::string, unsigned> *g_cnt;
static unsigned long long next(const char *name)
{
	int d = g_dir;
	g_dir = 0;
	unsigned k = (*g_cnt)[name]++;
	auto it = g_in->find({name, k});
	g_dir = d;
	if (it == g_in->end()) { static int once; if (!once++) fprintf(stderr, "REPLAY-NOTE no value recorded for %s[%u]\n", name, k); return 0; }
	return it->second;
}
extern "C" {
uint8_t sym_u8(const char *n) { return (uint8_t) next(n); }
uint16_t sym_u16(const char *n) { return (uint16_t) next(n); }
uint32_t sym_u32(const char *n) { return (uint32_t) next(n); }
uint64_t sym_u64(const char *n) { return next(n); }
uint32_t sym_pick(uint32_t n, const char *name) { uint32_t v = (uint32_t) next(name); return v < n ? v : 0; }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t *) p)[i] = (uint8_t) next(name); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-DIVERGED assumption does not hold\n"); fflush(stdout); _exit(78); } }
void sym_kill(void) { fprintf(stderr, "REPLAY-DIVERGED path ended by the harness\n"); fflush(stdout); _exit(78); }
void sym_fail(const char *m) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); fflush(stdout); _exit(77); }
void sym_assert(int c, const char *m) { if (!c) sym_fail(m); }
void sym_reach(const char *) {}
void sym_trace(const char *m) { printf("TRACE %s\n", m); }
void sym_tracev(const char *m, uint64_t v) { printf("TRACE %s=%llu\n", m, (unsigned long long) v); }
void sym_dir(int d) { g_dir = d; }
int sym_is_native(void) { return 1; }
uint64_t sym_live(int bytes) { return g_live[bytes ? 1 : 0]; }
int sym_issym(uint64_t) { return 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_byteseq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }

// ---- cooperative threads: exactly one runs, the others wait for the baton
struct Co { void (*fn)(void *); void *arg; pthread_t th; };
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_cv = PTHREAD_COND_INITIALIZER;
static int g_cur;
static Co g_co[64];
static int g_nco = 1;
static thread_local int g_me;
static void wait_turn() { while (g_cur != g_me) pthread_cond_wait(&g_cv, &g_mx); }
static void *co_main(void *p)
{
	g_me = (int) (long) p;
	pthread_mutex_lock(&g_mx);
	wait_turn();
	pthread_mutex_unlock(&g_mx);
	g_co[g_me].fn(g_co[g_me].arg);
	fprintf(stderr, "REPLAY-DIVERGED a modelled thread returned\n");
	_exit(78);
}
int sym_thread_create(void (*fn)(void *), void *arg)
{
	int k = g_nco++;
	g_co[k].fn = fn; g_co[k].arg = arg;
	pthread_create(&g_co[k].th, nullptr, co_main, (void *) (long) k);
	return k;
}
void sym_switch(int k)
{
	pthread_mutex_lock(&g_mx);
	g_cur = k;
	pthread_cond_broadcast(&g_cv);
	wait_turn();
	pthread_mutex_unlock(&g_mx);
}
int sym_self(void) { return g_me; }

int nanosleep(const struct timespec *t, struct timespec *) { h_sleep_ns(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { h_sleep_ns(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
}
namespace std
{
	namespace chrono { inline namespace _V2 {
		system_clock::time_point system_clock::now() noexcept { return time_point(duration(h_system_now_ns())); }
		steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(h_steady_now_ns())); }
	} }
	void thread::_M_start_thread(_State_ptr s, void (*)()) { static unsigned long n; unsigned long me = ++n; *(unsigned long *) (void *) &_M_id = me; h_thread_start(s.release()); }
	void thread::join() { h_thread_join(*(unsigned long *) (void *) &_M_id); _M_id = id(); }
}
int main(int argc, char **argv)
{
	g_in = new std::map<std::pair<std::string, unsigned>, unsigned long long>();
	g_cnt = new std::map<std::string, unsigned>();
	FILE *f = fopen(argc > 1 ? argv[1] : "/dev/null", "r");
	if (!f) { perror("input"); return 79; }
	char nm[256]; unsigned k; unsigned long long v;
	while (fscanf(f, "%255s %u %llu", nm, &k, &v) == 3) (*g_in)[{nm, k}] = v;
	fclose(f);
	try {
		sym_main();
	} catch (std::exception &e) {
		fprintf(stderr, "REPLAY-VIOLATION uncaught exception: %s\n", e.what());
		fflush(stdout);
		_exit(77);
	} catch (...) {
		fprintf(stderr, "REPLAY-VIOLATION uncaught exception\n");
		fflush(stdout);
		_exit(77);
	}
	printf("REPLAY-END\n");
	fflush(stdout);
	_exit(0);
}
