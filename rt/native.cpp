// Native side of a replay: the harness runs against the real library with the
// inputs of a recorded path.  argv: replay file, entry, optional trace file.
#include "sym.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
static std::map<std::string, std::string> g_in;
static std::map<std::string, int> g_count;
static FILE* g_trace = nullptr;
static unsigned long g_checks = 0;
static void done(int rc, const char* what, const char* label) {
  printf("%s %s\n", what, label);
  if (g_trace) { fprintf(g_trace, "end %s %s\n", what, label); fclose(g_trace); }
  fflush(stdout);
  fflush(stderr);
  _exit(rc);
}
extern "C" {
void sym_make(void* p, size_t n, const char* name) {
  std::string k = name;
  int c = g_count[k]++;
  if (c) k += "#" + std::to_string(c);
  memset(p, 0, n);
  auto it = g_in.find(k);
  if (it == g_in.end()) return;
  for (size_t i = 0; i < n && 2 * i + 1 < it->second.size(); i++)
    ((unsigned char*)p)[i] = (unsigned char)strtoul(it->second.substr(2 * i, 2).c_str(), nullptr, 16);
}
void sym_assume(bool c) { if (!c) done(43, "ASSUME-FAILED", ""); }
void sym_check(bool c, const char* label) {
  g_checks++;
  if (!c) done(42, "CHECK-FAILED", label);
}
void sym_expect(const char*) {}
void sym_cover(const char* l) { if (g_trace) fprintf(g_trace, "cover %s\n", l); }
void sym_bound(const char*, uint64_t) {}
uint64_t sym_concrete(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t) { return 0; }
int sym_native(void) { return 1; }
int sym_decide(bool c) { return c; }
uint64_t sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
static int g_nt = 0;
void sym_trace(const char* l, uint64_t v) { if (g_trace && g_nt++ < 400) fprintf(g_trace, "trace %s %llx\n", l, (unsigned long long)v); }
void sym_print(const char* l, uint64_t v) { printf("PRINT %s %llu\n", l, (unsigned long long)v); }
void sym_stub(const char*) {}
void sym_stop(void) { done(0, "PATH-DONE", "stop"); }
void sym_unsupported(const char*) {}
void* sym_malloc(size_t n) { return malloc(n); }
void sym_free(void* p) { free(p); }
}
// ---------------------------------------------------------------- schedules
// One thread runs at a time and the next one is chosen exactly as in the engine
// (same preemption points, same order of candidates), following the recorded choices.
// Race check of a replay (built with -DRACE): the same happens-before rules as in the engine, fed by the
// compiler's thread sanitizer instrumentation.
#ifdef RACE
struct Clk { unsigned c[4]; };
struct Rec { unsigned w[8], r[3][8]; };
static bool r_on = false, r_init = false;
static Clk r_vc[4];
struct Tab { std::map<uintptr_t, Clk> sync; std::map<uintptr_t, Rec> rec; };
static Tab& tab() { static Tab* t = (r_init = true, new Tab); return *t; }
static int r_cur();
static bool r_busy = false;
static void r_join(Clk& a, const Clk& b) { for (int i = 0; i < 4; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void r_acquire(uintptr_t a, int t) {
  if (t > 3) return;
  r_busy = true;
  auto it = tab().sync.find(a);
  if (it != tab().sync.end()) r_join(r_vc[t], it->second);
  r_busy = false;
}
static void r_release(uintptr_t a, int t) {
  if (t > 3) return;
  r_busy = true;
  r_join(tab().sync[a], r_vc[t]);
  r_vc[t].c[t]++;
  r_busy = false;
}
static void r_access(const void* p, size_t n, bool write) {
  if (!r_on || r_busy) return;
  const int t = r_cur();
  if (t > 2) return;
  char here;
  if ((uintptr_t)p > (uintptr_t)&here - (64 << 10) && (uintptr_t)p < (uintptr_t)&here + (512 << 10)) return;  // own stack
  r_busy = true;
  const Clk& c = r_vc[t];
  const uintptr_t a = (uintptr_t)p;
  for (size_t i = 0; i < n;) {
    Rec& r = tab().rec[(a + i) & ~(uintptr_t)7];
    for (unsigned b = (a + i) & 7; b < 8 && i < n; b++, i++) {
      auto bad = [&](unsigned e) { return e && (int)(e & 3) != t && (e >> 2) > c.c[e & 3]; };
      bool race = bad(r.w[b]);
      if (write) for (int k = 0; k < 3; k++) race = race || bad(r.r[k][b]);
      if (race) done(42, "DATA-RACE", write ? "unsynchronised write" : "unsynchronised read");
      if (write) r.w[b] = c.c[t] << 2 | t;
      else r.r[t][b] = c.c[t] << 2 | t;
    }
  }
  r_busy = false;
}
static void r_fresh(void* p, size_t n) {
  if (!r_on || r_busy || !p) return;
  r_busy = true;
  auto& m = tab().rec;
  for (auto it = m.lower_bound((uintptr_t)p & ~(uintptr_t)7); it != m.end() && it->first < (uintptr_t)p + n;) it = m.erase(it);
  r_busy = false;
}
static void r_create(int me, int t) {
  if (t > 3) return;
  if (!r_on) for (int i = 0; i < 4; i++) if (!r_vc[i].c[i]) r_vc[i].c[i] = 1;
  r_join(r_vc[t], r_vc[me]);
  r_vc[me].c[me]++;
  r_on = true;
}
static void r_joined(int t, int other, bool alone) {
  if (t > 3 || other > 3) return;
  r_join(r_vc[t], r_vc[other]);
  if (alone) { r_on = false; r_busy = true; tab().rec.clear(); r_busy = false; }
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); r_fresh(p, n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
extern "C" {
#define RW(N) \
  void __tsan_read##N(void* p) { r_access(p, N, false); } void __tsan_write##N(void* p) { r_access(p, N, true); } \
  void __tsan_unaligned_read##N(void* p) { r_access(p, N, false); } void __tsan_unaligned_write##N(void* p) { r_access(p, N, true); } \
  void __tsan_read_write##N(void* p) { r_access(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { r_access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) r_access(p, 8, true); }
void __tsan_vptr_read(void** p) { r_access(p, 8, false); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { r_access(s, n, false); r_access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { r_access(s, n, false); r_access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { r_access(d, n, true); return memset(d, c, n); }
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* p, int) { T v = __atomic_load_n(p, 5); r_acquire((uintptr_t)p, r_cur()); return v; } \
  void __tsan_atomic##N##_store(volatile T* p, T v, int) { __atomic_store_n(p, v, 5); r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { r_acquire((uintptr_t)p, r_cur()); r_release((uintptr_t)p, r_cur()); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#else
static void r_acquire(uintptr_t, int) {}
static void r_release(uintptr_t, int) {}
static void r_create(int, int) {}
static void r_joined(int, int, bool) {}
#endif
namespace {
enum { Ready, Mutex, Cond, Timed, Join, Done };
struct Thr {
  int stat = Ready, timeouts = 0, ret = 0, pending = 0;
  uintptr_t wait = 0, re = 0;
  void (*fn)(void*) = nullptr;
  void* arg = nullptr;
  sem_t sem;
  Thr() { sem_init(&sem, 0, 0); }
};
struct Sched {
  std::vector<Thr*> th;
  std::map<uintptr_t, int> mutex;
  std::vector<int> plan;
  size_t next = 0;
  int cur = 0, preempts = 0, maxPreempt = 0, maxTimeouts = 0;
  long skew = 0;
  Sched() { th.push_back(new Thr); }
};
Sched& S() { static Sched* s = new Sched; return *s; }
void join_done(Sched& s, int t, int other) {
  bool alone = true;
  for (int i = 0; i < (int)s.th.size(); i++) if (i != t && s.th[i]->stat != Done) alone = false;
  r_joined(t, other, alone);
}
bool runnable(Sched& s, int t) {
  Thr& x = *s.th[t];
  switch (x.stat) {
    case Ready: return true;
    case Mutex: return !s.mutex.count(x.wait);
    case Join: return s.th[x.wait]->stat == Done;
    case Timed: return !s.mutex.count(x.re) && x.timeouts < s.maxTimeouts;
    default: return false;
  }
}
void go(Sched& s, int t) {
  Thr& x = *s.th[t];
  if (x.stat == Mutex) { s.mutex[x.wait] = t + 1; r_acquire(x.wait, t); x.ret = x.pending; }
  else if (x.stat == Join) { join_done(s, t, (int)x.wait); x.ret = 0; }
  else if (x.stat == Timed) { s.mutex[x.re] = t + 1; r_acquire(x.re, t); x.timeouts++; x.ret = 110; s.skew += 1000000000000000L; }
  x.stat = Ready;
  const int me = s.cur;
  s.cur = t;
  if (t == me) return;
  sem_post(&x.sem);
  if (s.th[me]->stat != Done) while (sem_wait(&s.th[me]->sem) != 0) {}
}
int choice(Sched& s, const std::vector<int>& c, int dflt) {
  if (s.next >= s.plan.size()) return dflt;
  const int d = s.plan[s.next++];
  for (int t : c) if (t == d) return d;
  done(44, "SCHEDULE-MISMATCH", "");
  return dflt;
}
void schedule(bool blocking) {
  Sched& s = S();
  std::vector<int> c;
  for (int t = 0; t < (int)s.th.size(); t++) if (runnable(s, t)) c.push_back(t);
  if (c.empty()) {
    for (int t = 0; t < (int)s.th.size(); t++)
      if (s.th[t]->stat == Timed && !s.mutex.count(s.th[t]->re)) c.push_back(t);
    if (c.empty()) done(42, "DEADLOCK", "no thread can continue");
    for (int t : c) if (s.th[t]->timeouts > s.maxTimeouts + 20) done(45, "TIMED-WAIT-BOUND", "");
  }
  if (!blocking) {
    if (c.size() > 1 && s.preempts < s.maxPreempt) {
      const int d = choice(s, c, s.cur);
      if (d != s.cur) { s.preempts++; go(s, d); }
    }
    return;
  }
  go(s, c.size() > 1 ? choice(s, c, c[0]) : c[0]);
}
void* thread_body(void* p) {
  Thr* t = (Thr*)p;
  while (sem_wait(&t->sem) != 0) {}
  t->fn(t->arg);
  t->stat = Done;
  schedule(true);
  return nullptr;
}
int cond_wait(void* c, void* m, bool timed) {
  Sched& s = S();
  auto it = s.mutex.find((uintptr_t)m);
  if (it == s.mutex.end() || it->second != s.cur + 1) done(42, "DEADLOCK", "condition wait without the mutex");
  r_release((uintptr_t)m, s.cur);
  s.mutex.erase(it);
  Thr& t = *s.th[s.cur];
  t.stat = timed ? Timed : Cond;
  t.wait = (uintptr_t)c;
  t.re = (uintptr_t)m;
  schedule(true);
  return t.ret;
}
void cond_notify(void* c, bool all) {
  for (auto* t : S().th)
    if ((t->stat == Cond || t->stat == Timed) && t->wait == (uintptr_t)c) {
      t->stat = Mutex; t->wait = t->re; t->pending = 0;
      if (!all) break;
    }
  schedule(false);
}
void state_main(void* p) {
  auto* s = (std::thread::_State*)p;
  s->_M_run();
  delete s;
}
}  // namespace
#ifdef RACE
static int r_cur() { return S().cur; }
#endif
extern "C" {
int sym_thread_create(void (*fn)(void*), void* arg) {
  Sched& s = S();
  Thr* t = new Thr;
  t->fn = fn;
  t->arg = arg;
  s.th.push_back(t);
  const int id = (int)s.th.size() - 1;
  r_create(s.cur, id);
  pthread_t h;
  if (pthread_create(&h, nullptr, thread_body, t) != 0) done(46, "NO-THREAD", "");
  pthread_detach(h);
  schedule(false);
  return id;
}
void sym_thread_join(int id) {
  Sched& s = S();
  if (s.th[id]->stat == Done) { join_done(s, s.cur, id); return; }
  Thr& t = *s.th[s.cur];
  t.stat = Join;
  t.wait = id;
  schedule(true);
}
void sym_yield(void) { schedule(false); }
void sym_point(void) { schedule(false); }
int sym_thread_self(void) { return S().cur; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  Sched& s = S();
  auto it = s.mutex.find((uintptr_t)m);
  if (it == s.mutex.end()) { s.mutex[(uintptr_t)m] = s.cur + 1; r_acquire((uintptr_t)m, s.cur); return 0; }
  if (it->second == s.cur + 1) done(42, "DEADLOCK", "mutex locked twice by the same thread");
  Thr& t = *s.th[s.cur];
  t.stat = Mutex;
  t.wait = (uintptr_t)m;
  t.pending = 0;
  schedule(true);
  return t.ret;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  Sched& s = S();
  if (s.mutex.count((uintptr_t)m)) return 16;
  s.mutex[(uintptr_t)m] = s.cur + 1;
  r_acquire((uintptr_t)m, s.cur);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  Sched& s = S();
  auto it = s.mutex.find((uintptr_t)m);
  if (it == s.mutex.end() || it->second != s.cur + 1) done(42, "DEADLOCK", "unlock of a mutex that is not held");
  r_release((uintptr_t)m, s.cur);
  s.mutex.erase(it);
  schedule(false);
  return 0;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait(c, m, true); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait(c, m, true); }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { cond_notify(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { cond_notify(c, true); return 0; }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { schedule(false); return 0; }
}
namespace std {
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  const int id = sym_thread_create(state_main, st.release());
  _M_id = thread::id((unsigned long)id + 1);
}
void thread::join() {
  unsigned long h;
  memcpy(&h, &_M_id, sizeof h);
  sym_thread_join((int)h - 1);
  _M_id = thread::id();
}
void thread::detach() { _M_id = thread::id(); }
void condition_variable::notify_one() noexcept { cond_notify(this, false); }
void condition_variable::notify_all() noexcept { cond_notify(this, true); }
void condition_variable::wait(unique_lock<mutex>& l) { cond_wait(this, l.mutex(), false); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(duration(ts.tv_sec * 1000000000L + ts.tv_nsec + S().skew));
}
} }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream f(argv[1]);
  std::string tag, name, hex;
  std::string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 6, "sched ") == 0) {
      std::istringstream l(line.substr(6));
      for (int t; l >> t;) S().plan.push_back(t);
    }
    if (line.compare(0, 7, "bounds ") == 0) sscanf(line.c_str(), "bounds %d %d", &S().maxPreempt, &S().maxTimeouts);
    if (line.compare(0, 3, "in ") != 0) continue;
    size_t sp = line.rfind(' ');
    g_in[line.substr(3, sp - 3)] = line.substr(sp + 1);
  }
  if (argc > 3) g_trace = fopen(argv[3], "w");
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!fn) { printf("no entry %s\n", argv[2]); return 2; }
  fn();
  done(0, "PATH-DONE", "end");
}
