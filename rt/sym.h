// API between the harnesses and the symbolic executor (engine/symx.cpp) or the native replayer (rt/native.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t sym_u8(const char *name);            // an arbitrary value, fresh on every call
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
uint32_t sym_pick(uint32_t n, const char *name); // an arbitrary value in [0,n): the executor explores all of them
void sym_bytes(void *p, size_t n, const char *name);
void sym_assume(int cond);
void sym_assert(int cond, const char *msg);
void sym_fail(const char *msg);
void sym_kill(void);                          // end this path silently (assumption violated)
void sym_reach(const char *tag);              // vacuity witness
void sym_trace(const char *msg);
void sym_tracev(const char *msg, uint64_t v);
void sym_dir(int d);                          // 1: following heap objects get descending addresses, 0: ascending
int sym_thread_create(void (*fn)(void *), void *arg);
void sym_switch(int tid);
int sym_self(void);
uint64_t sym_live(int bytes);                  // objects (0) or bytes (1) allocated by operator new and not deleted
int sym_is_native(void);
int sym_issym(uint64_t v);
uint64_t sym_concretize(uint64_t v);          // enumerate the values of v by forking
int sym_and(int a, int b);                    // non-forking connectives
int sym_or(int a, int b);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
int sym_byteseq(const void *a, const void *b, size_t n); // non-forking equality
#ifdef __cplusplus
}
#endif
#define sym_not(a) (!(a))
