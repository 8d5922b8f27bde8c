// Harness interface.  Under the symbolic executor these are built-ins; in a
// native replay they are served from the recorded counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_make(void* p, size_t n, const char* name);
void sym_assume(bool c);
void sym_check(bool c, const char* label);
void sym_expect(const char* label);
void sym_cover(const char* label);
void sym_bound(const char* label, uint64_t value);
uint64_t sym_concrete(uint64_t v);
int sym_is_symbolic(uint64_t v);
int sym_native(void);
int sym_decide(bool c);
uint64_t sym_ite(bool c, uint64_t a, uint64_t b);
void sym_trace(const char* label, uint64_t v);
void sym_print(const char* label, uint64_t v);
void sym_stub(const char* label);
void sym_stop(void);
void sym_unsupported(const char* label);
int sym_same_object(const void* a, const void* b);
void* sym_malloc(size_t n);
void sym_free(void* p);
int sym_host_fmt(char* buf, size_t n, const char* fmt, uint64_t bits);
uint64_t sym_host_strtod(const char* text, size_t* used);
int sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(int t);
void sym_yield(void);
void sym_point(void);
uint64_t sym_clock_skew(void);
int sym_thread_self(void);
int sym_mutex_holder(void* m);
}
template <class T> inline T sym(const char* name) {
  T v;
  sym_make(&v, sizeof v, name);
  return v;
}
inline bool sym_bool(const char* name) {
  uint8_t v;
  sym_make(&v, 1, name);
  return (v & 1) != 0;
}
// a value in [0, n), explored for every value
inline uint64_t sym_choose(uint64_t n, const char* name) {
  uint8_t v;
  sym_make(&v, 1, name);
  sym_assume(v < n);
  return sym_concrete(v);
}
// a value in [lo, hi] that stays symbolic
template <class T> inline T sym_range(T lo, T hi, const char* name) {
  T v;
  sym_make(&v, sizeof v, name);
  sym_assume(v >= lo);
  sym_assume(v <= hi);
  return v;
}
#define HARNESS(n) extern "C" void n()
