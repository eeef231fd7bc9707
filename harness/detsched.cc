#include "detsched.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
enum St { kRun, kMutex, kCond, kJoin, kOnce, kFutex, kDone };
struct Thr {
  int id;
  St st{kRun};
  void* on{nullptr};
  bool timed{false}, timedout{false};
  pthread_mutex_t* m{nullptr};
  void* (*fn)(void*){nullptr};
  void* arg{nullptr};
  pthread_t real;
  int prio{0};
  sem_t sem;
};
struct Mx {
  int owner{-1}, depth{0};
};
bool active = false;
bool busy = false;  // in the scheduler: instances of templates shared with instrumented code must not be preempted
std::vector<Thr*> thr;
std::map<void*, Mx> mx;
thread_local Thr* self = nullptr;
sched::Options opt;
sched::Result res;
std::function<void(const sched::Result&)> dead;
uint64_t rs;
int low = 0;
long steps_cap = 400000;
std::vector<long> change;

uint64_t Rnd() {
  rs ^= rs << 13;
  rs ^= rs >> 7;
  rs ^= rs << 17;
  return rs * 2685821657736338717ull >> 16;
}
template <class F>
F Real(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
bool Managed() { return active && self != nullptr; }

[[noreturn]] void Die(const char* v) {
  res.verdict = v;
  active = false;
  dead(res);
  _exit(0);
}

bool Ready(Thr* t) {
  switch (t->st) {
    case kRun: return true;
    case kMutex: return mx[t->on].owner < 0 || mx[t->on].owner == t->id;
    case kDone: return false;
    default: return false;
  }
}

// Gives the processor to the next thread.
void Switch(bool voluntary = false) {
  if (busy) return;
  busy = true;
  Thr* me = self;
  ++res.steps;
  if (res.steps > steps_cap) Die("LIVELOCK");
  std::vector<Thr*> r;
  for (Thr* t : thr)
    if (Ready(t)) r.push_back(t);
  if (opt.spurious && Rnd() % 64 == 0) {  // a spurious wake-up
    std::vector<Thr*> c;
    for (Thr* t : thr)
      if (t->st == kCond) c.push_back(t);
    if (!c.empty()) {
      Thr* t = c[Rnd() % c.size()];
      t->st = kRun;
      r.push_back(t);
    }
  }
  if (r.empty() || Rnd() % 32 == 0) {  // a timeout
    for (Thr* t : thr)
      if ((t->st == kCond || t->st == kFutex) && t->timed) {
        t->st = kRun;
        t->timedout = true;
        r.push_back(t);
        break;
      }
  }
  if (r.empty()) {
    bool live = false;
    for (Thr* t : thr) live |= t->st != kDone;
    if (!live) {
      busy = false;
      return;
    }
    Die("DEADLOCK");
  }
  Thr* next = nullptr;
  int strat = res.steps > 20000 ? 0 : opt.strategy;
  if (strat == 1) {
    for (long c : change)
      if (c == res.steps) me->prio = --low;
    if (voluntary) me->prio = --low;
    for (Thr* t : r)
      if (!next || t->prio > next->prio) next = t;
  } else if (strat == 2 && me->st == kRun && !voluntary && Rnd() % 8) {
    next = me;
  } else {
    next = r[Rnd() % r.size()];
  }
  res.hash = res.hash * 1099511628211ull + next->id + 1;
  busy = false;
  if (next != me) {
    sem_post(&next->sem);
    if (me->st == kDone) return;
    while (sem_wait(&me->sem) != 0) {
    }
  }
}

void Block(St st, void* on) {
  self->st = st;
  self->on = on;
  Switch();
  self->st = kRun;
  self->on = nullptr;
}

void* Trampoline(void* p) {
  Thr* t = static_cast<Thr*>(p);
  self = t;
  while (sem_wait(&t->sem) != 0) {
  }
  void* r = t->fn(t->arg);
  t->st = kDone;
  for (Thr* u : thr)
    if (u->st == kJoin && u->on == t) u->st = kRun;
  Switch();
  self = nullptr;
  return r;
}

void Lock(pthread_mutex_t* m) {
  Switch();
  while (true) {
    Mx& x = mx[m];
    if (x.owner < 0) break;
    if (x.owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) break;
    if (x.owner == self->id) {  // self deadlock
      self->st = kJoin;
      self->on = m;
      Switch();
    }
    Block(kMutex, m);
  }
  mx[m].owner = self->id;
  ++mx[m].depth;
}
void Release(pthread_mutex_t* m) {
  Mx& x = mx[m];
  if (--x.depth <= 0) {
    x.owner = -1;
    x.depth = 0;
  }
}
void Memory() {
  if (opt.memory && !busy && Managed() && self->st == kRun && Rnd() % opt.memory == 0) Switch();
}
long RawFutex(void* a, int op, long v, void* t, void* a2, long v3) {
  long r;
  register void* r10 __asm__("r10") = t;
  register void* r8 __asm__("r8") = a2;
  register long r9 __asm__("r9") = v3;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"((long)op), "d"(v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Switch();
  // the release of the mutex and the enqueueing are atomic
  const Mx keep = mx[m];
  mx[m] = Mx{};
  self->timed = timed;
  self->timedout = false;
  Block(kCond, c);
  self->timed = false;
  const bool to = self->timedout;
  self->timedout = false;
  while (mx[m].owner >= 0) Block(kMutex, m);
  mx[m] = keep;
  return to ? ETIMEDOUT : 0;
}
}  // namespace

namespace sched {
Result Run(const Options& o, std::function<void()> body, std::function<void(const Result&)> on_dead) {
  opt = o;
  res = Result{};
  dead = on_dead;
  rs = o.seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  for (int i = 0; i < 8; ++i) Rnd();
  for (Thr* t : thr) {
    sem_destroy(&t->sem);
    delete t;
  }
  thr.clear();
  mx.clear();
  low = 0;
  change.clear();
  const int d = Rnd() % 4;
  for (int i = 0; i < d; ++i) change.push_back(Rnd() % 120);
  Thr* t = new Thr{0};
  t->prio = 1 + Rnd() % 100;
  sem_init(&t->sem, 0, 0);
  thr.push_back(t);
  self = t;
  active = true;
  body();
  // lets threads that are still running end
  for (int guard = 0; guard < 100000; ++guard) {
    bool live = false;
    for (size_t i = 1; i < thr.size(); ++i) live |= thr[i]->st != kDone;
    if (!live) break;
    Switch(true);
  }
  active = false;
  self = nullptr;
  return res;
}
void Logf(const char* f, ...) {
  char b[256];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  busy = true;
  res.events.push_back(b);
  busy = false;
}
void Point() {
  if (Managed()) Switch(true);
}
int Self() { return self ? self->id : 0; }
}  // namespace sched

extern "C" {
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!Managed()) return real(p, a, fn, arg);
  Thr* t = new Thr{(int)thr.size()};
  t->fn = fn;
  t->arg = arg;
  t->prio = 1 + Rnd() % 100;
  sem_init(&t->sem, 0, 0);
  const int r = real(&t->real, a, Trampoline, t);
  if (r) return r;
  *p = t->real;
  thr.push_back(t);
  Switch();
  return 0;
}
int pthread_join(pthread_t p, void** v) {
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  if (Managed()) {
    for (Thr* t : thr)
      if (t->fn && pthread_equal(t->real, p)) {
        while (t->st != kDone) Block(kJoin, t);
        t->fn = nullptr;
      }
  }
  return real(p, v);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!Managed()) return real(m);
  Lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!Managed()) return real(m);
  Switch();
  if (mx[m].owner >= 0 && !(mx[m].owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
  mx[m].owner = self->id;
  ++mx[m].depth;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!Managed()) return real(m);
  Release(m);
  Switch();
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!Managed()) return real(c, m);
  return CondWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
  if (!Managed()) return real(c, m, ts);
  return CondWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  if (!Managed()) return real(c, m, k, ts);
  return CondWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!Managed()) return real(c);
  Switch();
  std::vector<Thr*> w;
  for (Thr* t : thr)
    if (t->st == kCond && t->on == c) w.push_back(t);
  if (!w.empty()) w[Rnd() % w.size()]->st = kRun;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!Managed()) return real(c);
  Switch();
  for (Thr* t : thr)
    if (t->st == kCond && t->on == c) t->st = kRun;
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  static auto real = Real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
  if (!Managed()) return real(o, fn);
  Switch();
  while (*o == 77) Block(kOnce, o);
  if (*o == 2) return 0;  // done (glibc's own encoding)
  *o = 77;
  struct Guard {
    pthread_once_t* o;
    bool ok{false};
    ~Guard() {
      *o = ok ? 2 : 0;
      for (Thr* t : thr)
        if (t->st == kOnce && t->on == o) t->st = kRun;
    }
  };
  {
    Guard g{o};
    fn();
    g.ok = true;
  }
  Switch();
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && Managed()) {
    const int op = a[1] & FUTEX_CMD_MASK;
    int* addr = reinterpret_cast<int*>(a[0]);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Switch();
      if (*addr != (int)a[2]) {
        errno = EAGAIN;
        return -1;
      }
      self->timed = a[3] != 0;
      self->timedout = false;
      Block(kFutex, addr);
      self->timed = false;
      if (self->timedout) {
        self->timedout = false;
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long k = 0;
      for (Thr* t : thr)
        if (k < a[2] && t->st == kFutex && t->on == addr) {
          t->st = kRun;
          ++k;
        }
      Switch();
      return k;
    }
  }
  long r;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}
int sched_yield(void) {
  if (Managed()) Switch(true);
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  static auto real = Real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  if (!Managed()) return real(a, b);
  Switch(true);
  return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
  static auto real = Real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
  if (!Managed()) return real(k, f, a, b);
  Switch(true);
  return 0;
}

// ---- what the compiler calls in code built with -fsanitize=thread (the sanitizer's own runtime is not linked)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) { Memory(); }
void __tsan_vptr_read(void**) {}
#define ACC(n)                                    \
  void __tsan_read##n(void*) { Memory(); }        \
  void __tsan_write##n(void*) { Memory(); }       \
  void __tsan_volatile_read##n(void*) { Memory(); } \
  void __tsan_volatile_write##n(void*) { Memory(); } \
  void __tsan_unaligned_read##n(void*) { Memory(); } \
  void __tsan_unaligned_write##n(void*) { Memory(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void*, unsigned long) { Memory(); }
void __tsan_write_range(void*, unsigned long) { Memory(); }
static void At() {
  if (!busy && Managed() && self->st == kRun) Switch();
}
#define ATOM(B, T)                                                                                                   \
  T __tsan_atomic##B##_load(const volatile T* a, int) { At(); return __atomic_load_n(a, 5); }                        \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { At(); __atomic_store_n(a, v, 5); }                        \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { At(); return __atomic_exchange_n(a, v, 5); }              \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { At(); return __atomic_fetch_add(a, v, 5); }              \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { At(); return __atomic_fetch_sub(a, v, 5); }              \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { At(); return __atomic_fetch_and(a, v, 5); }              \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { At(); return __atomic_fetch_or(a, v, 5); }                \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { At(); return __atomic_fetch_xor(a, v, 5); }              \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                               \
    At();                                                                                                            \
    return __atomic_compare_exchange_n(a, c, v, false, 5, 5);                                                        \
  }                                                                                                                  \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                                 \
    At();                                                                                                            \
    return __atomic_compare_exchange_n(a, c, v, false, 5, 5);                                                        \
  }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
