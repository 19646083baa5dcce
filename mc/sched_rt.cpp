// Runtime of sched.hpp. Compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <array>
#include <atomic>
#include <map>
#include <new>
#include <unordered_map>

namespace sched
{
constexpr int kMax = 6;
constexpr size_t kStack = 1024 * 1024;
using Clock = std::array<int, kMax>;
struct Eh {void * caught; unsigned int uncaught;};

struct Fiber
{
  ucontext_t ctx;
  std::function<void()> fn;
  bool done = false;
  std::function<bool()> ready;     // empty: runnable
  bool yielded = false;
  Clock clock{};
  Eh eh{nullptr, 0};
  char * stack = nullptr;
  const char * waits = "";
  const void * on = nullptr;
};
struct Mutex {int owner = -1; int depth = 0; Clock released{}; int readers = 0; Clock read_released{};};
struct Cond {int signals = 0; std::vector<int> waiting;};
struct Byte {int wt = -1, wc = 0; Clock reads{}; bool freed = false;};

struct State
{
  std::vector<Fiber> fibers;
  ucontext_t main;
  int current = -1;               // fiber running now
  std::map<const void *, Mutex> mutexes;
  std::map<const void *, Cond> conds;
  std::map<const void *, Clock> atomics;
  std::unordered_map<uintptr_t, Byte> shadow;
  std::vector<void *> quarantine;
  Result result;
  long now = 0;
  bool active = false;
};
static State * S = nullptr;
static bool in_runtime = false;
struct Guard {bool before; Guard() : before(in_runtime) {in_runtime = true;} ~Guard() {in_runtime = before;}};
static int quiet = 0;
static Options options;
static inline bool inside() {return S && S->active && S->current >= 0 && !in_runtime;}
static inline bool watched() {return inside() && quiet == 0;}
Quiet::Quiet() {quiet++;}
Quiet::~Quiet() {quiet--;}

static std::vector<char *> & stacks() {static std::vector<char *> v; return v;}

static void problem(const std::string & p) {if (S->result.problem.empty()) {S->result.problem = p;}}

static void switch_out()
{
  Fiber & f = S->fibers[S->current];
  Eh * eh = reinterpret_cast<Eh *>(__cxxabiv1::__cxa_get_globals());
  f.eh = *eh;
  swapcontext(&f.ctx, &S->main);
  // resumed
}
// a point where another thread may go on; with a condition, the thread waits for it
static void point(const char * what, const void * on, std::function<bool()> ready = nullptr, bool yielded = false)
{
  if (quiet > 0) {return;}
  in_runtime = true;
  Fiber & f = S->fibers[S->current];
  f.waits = what; f.on = on; f.ready = std::move(ready); f.yielded = yielded;
  switch_out();
  in_runtime = true;
  f.ready = nullptr; f.yielded = false;
  in_runtime = false;
}
static void join(Clock & a, const Clock & b) {for (int i = 0; i < kMax; i++) {if (b[i] > a[i]) {a[i] = b[i];}}}
static Clock & my_clock() {return S->fibers[S->current].clock;}

static void trampoline(int i)
{
  {
    in_runtime = false;
    try {S->fibers[i].fn();} catch (const std::exception & e) {Guard g; problem(std::string("a thread ends with an exception: ") + e.what());}
    catch (...) {Guard g; problem("a thread ends with an exception");}
  }
  in_runtime = true;
  S->fibers[i].done = true;
  swapcontext(&S->fibers[i].ctx, &S->main);
}

long tick() {Guard g; return S ? ++S->now : 0;}

Result run(const std::vector<std::function<void()>> & threads, const std::function<int(int)> & choose, const Options & o)
{
  options = o; quiet = 0;
  __libc_single_threaded = 0;        // reference counts are atomic operations, as they are in a program with threads
  static State * state = nullptr;
  in_runtime = true;
  if (!state) {state = new State;}
  S = state;
  S->fibers.clear(); S->mutexes.clear(); S->conds.clear(); S->atomics.clear(); S->shadow.clear();
  S->active = false;
  for (void * p : S->quarantine) {free(p);}
  S->quarantine.clear(); S->result = Result(); S->now = 0; S->current = -1; S->active = true;
  S->fibers.resize(threads.size());
  while (stacks().size() < threads.size()) {stacks().push_back(static_cast<char *>(aligned_alloc(4096, kStack)));}
  for (size_t i = 0; i < threads.size(); i++) {
    Fiber & f = S->fibers[i];
    f.fn = threads[i]; f.stack = stacks()[i]; f.clock[i] = 1;
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = kStack; f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, reinterpret_cast<void (*)()>(trampoline), 1, static_cast<int>(i));
  }
  Eh * eh = reinterpret_cast<Eh *>(__cxxabiv1::__cxa_get_globals());
  const Eh main_eh = *eh;
  int last = -1, run_length = 0;
  std::string text;
  for (;;) {
    std::vector<int> enabled, yielded;
    bool unfinished = false;
    for (size_t i = 0; i < S->fibers.size(); i++) {
      Fiber & f = S->fibers[i];
      if (f.done) {continue;}
      unfinished = true;
      if (f.ready && !f.ready()) {continue;}
      (f.yielded && static_cast<int>(i) == last ? yielded : enabled).push_back(i);
    }
    if (!unfinished || !S->result.problem.empty()) {break;}
    if (enabled.empty()) {enabled = yielded;}
    if (enabled.empty()) {
      text = "deadlock:";
      for (size_t i = 0; i < S->fibers.size(); i++) {if (!S->fibers[i].done) {text += " thread " + std::to_string(i) + " waits in " + S->fibers[i].waits;}}
      problem(text);
      break;
    }
    if (run_length > 60 && enabled.size() > 1) {   // fairness: a spinning thread does not run for ever
      std::vector<int> others;
      for (int i : enabled) {if (i != last) {others.push_back(i);}}
      enabled = others;
    }
    if (++S->result.steps > 3000) {problem("no thread finishes within 3000 steps (livelock)"); break;}
    int k = 0;
    if (o.preemptions >= 0 && S->result.preemptions >= o.preemptions) {   // no switch is left: the running thread goes on
      for (int i : enabled) {if (i == last) {enabled = {last}; break;}}
    }
    if (enabled.size() > 1) {
      in_runtime = false;
      S->active = false;
      k = choose(static_cast<int>(enabled.size()));      // may throw: the fibers are abandoned
      S->active = true;
      in_runtime = true;
    }
    const int next = enabled[k];
    bool last_enabled = false;
    for (int i : enabled) {last_enabled |= i == last;}
    if (next != last && last_enabled) {S->result.preemptions++;}
    run_length = next == last ? run_length + 1 : 0;
    last = next;
    S->current = next;
    *eh = S->fibers[next].eh;
    in_runtime = false;              // fibers leave from outside every guard
    swapcontext(&S->main, &S->fibers[next].ctx);
    in_runtime = true;
    *eh = main_eh;
    S->current = -1;
  }
  if (S->result.problem.empty()) {
    for (const auto & m : S->mutexes) {if (m.second.owner >= 0 || m.second.readers > 0) {problem("a lock is still held after every thread has finished");}}
  }
  S->active = false;
  in_runtime = false;
  return S->result;
}

// ---- memory accesses
static void access(uintptr_t a, size_t n, bool write)
{
  if (!watched()) {return;}
  Guard g;
  const int t = S->current;
  Fiber & f = S->fibers[t];
  const uintptr_t lo = reinterpret_cast<uintptr_t>(f.stack);
  if (a >= lo && a < lo + kStack) {return;}
  S->result.accesses++;
  for (size_t i = 0; i < n; i++) {
    Byte & b = S->shadow[a + i];
    if (b.freed) {problem("thread " + std::to_string(t) + " uses freed memory"); return;}
    if (b.wt >= 0 && b.wt != t && b.wc > f.clock[b.wt]) {
      problem("data race: thread " + std::to_string(t) + (write ? " writes" : " reads") + " what thread " + std::to_string(b.wt) + " wrote, without synchronisation");
      return;
    }
    if (write) {
      for (int o = 0; o < kMax; o++) {
        if (o != t && b.reads[o] > f.clock[o]) {
          problem("data race: thread " + std::to_string(t) + " writes what thread " + std::to_string(o) + " read, without synchronisation");
          return;
        }
      }
      b.wt = t; b.wc = f.clock[t]; b.reads = Clock{};
    } else {
      b.reads[t] = f.clock[t];
    }
  }
}
static void on_new(void * p, size_t n)
{
  if (!inside()) {return;}
  Guard g;
  for (size_t i = 0; i < n; i++) {S->shadow.erase(reinterpret_cast<uintptr_t>(p) + i);}
}
static bool on_delete(void * p)
{
  if (!p || !inside()) {return false;}
  const size_t n = malloc_usable_size(p);
  access(reinterpret_cast<uintptr_t>(p), n, true);
  Guard g;
  for (size_t i = 0; i < n; i++) {S->shadow[reinterpret_cast<uintptr_t>(p) + i].freed = true;}
  S->quarantine.push_back(p);
  return true;
}

// ---- locks
static int lock(const void * m, bool try_only)
{
  point("lock", m, try_only ? std::function<bool()>() : [m] {Guard g; const Mutex & x = S->mutexes[m]; return x.owner < 0 && x.readers == 0;});
  Guard g;
  Mutex & x = S->mutexes[m];
  if (x.owner >= 0 || x.readers) {return EBUSY;}
  x.owner = S->current; x.depth = 1;
  join(my_clock(), x.released); join(my_clock(), x.read_released);
  return 0;
}
static int relock(const void * m, bool recursive)
{
  Guard g;
  Mutex & x = S->mutexes[m];
  if (recursive && x.owner == S->current) {x.depth++; return 0;}
  return -1;
}
static int rdlock(const void * m, bool try_only)
{
  point("read lock", m, try_only ? std::function<bool()>() : [m] {Guard g; return S->mutexes[m].owner < 0;});
  Guard g;
  Mutex & x = S->mutexes[m];
  if (x.owner >= 0) {return EBUSY;}
  x.readers++;
  join(my_clock(), x.released);
  return 0;
}
static int unlock(const void * m)
{
  {
    Guard g;
    Mutex & x = S->mutexes[m];
    if (x.owner == S->current) {
      if (--x.depth > 0) {return 0;}
      x.owner = -1;
      join(x.released, my_clock());
    } else if (x.owner < 0 && x.readers > 0) {
      x.readers--;
      join(x.read_released, my_clock());
    } else {
      problem("thread " + std::to_string(S->current) + " unlocks what it has not locked");
    }
    my_clock()[S->current]++;
  }
  point("after unlock", m);
  return 0;
}
static void atomic_point(const volatile void * a, int order, bool reads, bool writes)
{
  if (quiet > 0) {return;}
  if (options.atomics) {point("atomic", const_cast<const void *>(a));}
  Guard g;
  Clock & c = S->atomics[const_cast<const void *>(a)];
  if (reads && order != __ATOMIC_RELAXED) {join(my_clock(), c);}
  if (writes && order != __ATOMIC_RELAXED) {join(c, my_clock()); my_clock()[S->current]++;}
}
template<class F> static F real(const char * n) {return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));}
#define REAL(name) static auto r = real<decltype(&name)>(#name)
}  // namespace sched
using namespace sched;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
  if (inside()) {
    if (relock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) == 0) {return 0;}
    return lock(m, false);
  }
  REAL(pthread_mutex_lock); return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept
{
  if (inside()) {
    if (relock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) == 0) {return 0;}
    return lock(m, true);
  }
  REAL(pthread_mutex_trylock); return r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * t) noexcept {if (inside()) {return lock(m, true) ? ETIMEDOUT : 0;} REAL(pthread_mutex_timedlock); return r(m, t);}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * t) noexcept {if (inside()) {return lock(m, true) ? ETIMEDOUT : 0;} REAL(pthread_mutex_clocklock); return r(m, c, t);}
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept {if (inside()) {return unlock(m);} REAL(pthread_mutex_unlock); return r(m);}
int pthread_rwlock_rdlock(pthread_rwlock_t * m) noexcept {if (inside()) {return rdlock(m, false);} REAL(pthread_rwlock_rdlock); return r(m);}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) noexcept {if (inside()) {return rdlock(m, true);} REAL(pthread_rwlock_tryrdlock); return r(m);}
int pthread_rwlock_wrlock(pthread_rwlock_t * m) noexcept {if (inside()) {return lock(m, false);} REAL(pthread_rwlock_wrlock); return r(m);}
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) noexcept {if (inside()) {return lock(m, true);} REAL(pthread_rwlock_trywrlock); return r(m);}
int pthread_rwlock_unlock(pthread_rwlock_t * m) noexcept {if (inside()) {return unlock(m);} REAL(pthread_rwlock_unlock); return r(m);}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (!inside()) {REAL(pthread_cond_wait); return r(c, m);}
  const int me = S->current;
  {Guard g; S->conds[c].waiting.push_back(me);}
  unlock(m);
  point("condition wait", c, [c, me] {Guard g; for (int w : S->conds[c].waiting) {if (w == me) {return false;}} return true;});
  return lock(m, false);
}
int pthread_cond_signal(pthread_cond_t * c) noexcept
{
  if (!inside()) {REAL(pthread_cond_signal); return r(c);}
  {Guard g; auto & w = S->conds[c].waiting; if (!w.empty()) {w.erase(w.begin());}}
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) noexcept
{
  if (!inside()) {REAL(pthread_cond_broadcast); return r(c);}
  {Guard g; S->conds[c].waiting.clear();}
  return 0;
}
int sched_yield() noexcept {if (inside()) {point("yield", nullptr, nullptr, true); return 0;} REAL(sched_yield); return r();}
int usleep(useconds_t u) {if (inside()) {point("sleep", nullptr, nullptr, true); return 0;} REAL(usleep); return r(u);}
int nanosleep(const struct timespec * a, struct timespec * b) {if (inside()) {point("sleep", nullptr, nullptr, true); return 0;} REAL(nanosleep); return r(a, b);}
int clock_nanosleep(clockid_t c, int f, const struct timespec * a, struct timespec * b) {if (inside()) {point("sleep", nullptr, nullptr, true); return 0;} REAL(clock_nanosleep); return r(c, f, a, b);}

// function-local statics: one thread initialises, the others wait for it
int __cxa_guard_acquire(long long int * g)
{
  char * b = reinterpret_cast<char *>(g);
  if (b[0]) {return 0;}
  if (inside() && quiet == 0) {
    point("static initialisation", g, [b] {return b[0] || !b[1];});
    if (b[0]) {Guard k; join(my_clock(), S->atomics[g]); return 0;}
  }
  b[1] = 1;
  return 1;
}
static void guard_done(long long int * g, bool ok)
{
  char * b = reinterpret_cast<char *>(g);
  b[0] = ok; b[1] = 0;
  if (inside()) {Guard k; join(S->atomics[g], my_clock()); my_clock()[S->current]++;}
}
void __cxa_guard_release(long long int * g) {guard_done(g, true);}
void __cxa_guard_abort(long long int * g) {guard_done(g, false);}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, false);} \
  void __tsan_write##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, true);} \
  void __tsan_read_write##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, false); access(reinterpret_cast<uintptr_t>(p), n, true);} \
  void __tsan_unaligned_read##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, false);} \
  void __tsan_unaligned_write##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, true);} \
  void __tsan_unaligned_read_write##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, false); access(reinterpret_cast<uintptr_t>(p), n, true);} \
  void __tsan_volatile_read##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, false);} \
  void __tsan_volatile_write##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, true);} \
  void __tsan_unaligned_volatile_read##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, false);} \
  void __tsan_unaligned_volatile_write##n(void * p) {access(reinterpret_cast<uintptr_t>(p), n, true);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) {access(reinterpret_cast<uintptr_t>(p), n, false);}
void __tsan_write_range(void * p, size_t n) {access(reinterpret_cast<uintptr_t>(p), n, true);}
void __tsan_vptr_read(void ** p) {access(reinterpret_cast<uintptr_t>(p), 8, false);}
void __tsan_vptr_update(void ** p, void *) {access(reinterpret_cast<uintptr_t>(p), 8, true);}
void * __tsan_memcpy(void * d, const void * s, size_t n) {access(reinterpret_cast<uintptr_t>(s), n, false); access(reinterpret_cast<uintptr_t>(d), n, true); return memcpy(d, s, n);}
void * __tsan_memmove(void * d, const void * s, size_t n) {access(reinterpret_cast<uintptr_t>(s), n, false); access(reinterpret_cast<uintptr_t>(d), n, true); return memmove(d, s, n);}
void * __tsan_memset(void * d, int c, size_t n) {access(reinterpret_cast<uintptr_t>(d), n, true); return memset(d, c, n);}
void __tsan_atomic_thread_fence(int) {if (inside()) {point("fence", nullptr);} __atomic_thread_fence(__ATOMIC_SEQ_CST);}
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T * a, int o) {if (inside()) {atomic_point(a, o, true, false);} return __atomic_load_n(a, __ATOMIC_SEQ_CST);} \
  void __tsan_atomic##bits##_store(volatile T * a, T v, int o) {if (inside()) {atomic_point(a, o, false, true);} __atomic_store_n(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic##bits##_exchange(volatile T * a, T v, int o) {if (inside()) {atomic_point(a, o, true, true);} return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int o) {if (inside()) {atomic_point(a, o, true, true);} return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int o) {if (inside()) {atomic_point(a, o, true, true);} return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int o) {if (inside()) {atomic_point(a, o, true, true);} return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int o) {if (inside()) {atomic_point(a, o, true, true);} return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int o) {if (inside()) {atomic_point(a, o, true, true);} return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);} \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * e, T v, int o, int) {if (inside()) {atomic_point(a, o, true, true);} return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);} \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * e, T v, int o, int) {if (inside()) {atomic_point(a, o, true, true);} return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T * a, T e, T v, int o, int) {if (inside()) {atomic_point(a, o, true, true);} __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e;}
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
}

extern "C" {
void * __real_malloc(size_t); void __real_free(void *); void * __real_realloc(void *, size_t); void * __real_calloc(size_t, size_t);
// what the instrumented code allocates by other means than new
void * __wrap_malloc(size_t n) {void * p = __real_malloc(n); if (p) {on_new(p, n);} return p;}
void * __wrap_calloc(size_t k, size_t n) {void * p = __real_calloc(k, n); if (p) {on_new(p, k * n);} return p;}
void __wrap_free(void * p) {if (!on_delete(p)) {__real_free(p);}}
void * __wrap_realloc(void * q, size_t n)
{
  if (!inside() || !q) {return __real_realloc(q, n);}
  const size_t before = malloc_usable_size(q);
  void * p = __wrap_malloc(n);
  if (p) {memcpy(p, q, before < n ? before : n); __wrap_free(q);}
  return p;
}
}
void * operator new(size_t n) {void * p = malloc(n ? n : 1); if (!p) {throw std::bad_alloc();} on_new(p, n); return p;}
void * operator new[](size_t n) {return operator new(n);}
void operator delete(void * p) noexcept {if (!on_delete(p)) {free(p);}}
void operator delete[](void * p) noexcept {operator delete(p);}
void operator delete(void * p, size_t) noexcept {operator delete(p);}
void operator delete[](void * p, size_t) noexcept {operator delete(p);}
