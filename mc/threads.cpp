#include "threads.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <locale.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
}

namespace sched {
namespace {

constexpr int kMax = 4;
constexpr size_t kArena = size_t(64) << 20;

struct Clock {
  uint32_t c[kMax] = {0, 0, 0, 0};
  void join(const Clock& o) {
    for (int i = 0; i < kMax; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

struct Thread {
  int id = 0;
  pthread_t handle{};
  std::function<void()> body;
  std::atomic<int> turn{0};
  bool done = false;
  long points = 0;
  uintptr_t stack_lo = 0, stack_hi = 0;
  char* arena = nullptr;
  size_t used = 0;
  Clock clock;
};

Thread threads[kMax];
int count;
std::vector<Segment> plan;
size_t segment;
bool coarse_points;
Report report;
std::atomic<int> finished{0};

thread_local Thread* self;      // of a controlled thread, while it runs library or harness code
thread_local int inside;        // in this runtime

struct Range {
  uintptr_t lo, hi;
};
std::vector<Range> readonly;

void futex_wait(std::atomic<int>& a, int v) { syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(std::atomic<int>& a) { syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void give(Thread& t) {
  t.turn.store(1);
  futex_wake(t.turn);
}
void await(Thread& t) {
  for (int spin = 0; spin < 200; ++spin)
    if (t.turn.load()) break;
  while (!t.turn.load()) futex_wait(t.turn, 0);
  t.turn.store(0);
}

// The next thread to run by the plan, or the first that is not done; -1 if all are.
int next(int except) {
  while (segment < plan.size()) {
    const Segment& s = plan[segment];
    if (s.thread < count && !threads[s.thread].done && (s.until < 0 || threads[s.thread].points < s.until) && s.thread != except) return s.thread;
    ++segment;
  }
  for (int i = 0; i < count; ++i)
    if (!threads[i].done && i != except) return i;
  return -1;
}

void transfer(Thread* from, int to) {
  ++report.switches;
  give(threads[to]);
  await(*from);
}

void point(bool important) {
  Thread* me = self;
  if (coarse_points && !important) return;
  ++me->points;
  if (segment < plan.size()) {
    const Segment& s = plan[segment];
    if (s.thread == me->id && s.until >= 0 && me->points >= s.until) {
      ++segment;
      const int n = next(-1);
      if (n >= 0 && n != me->id) transfer(me, n);
    }
  }
}

// Lets another thread run because this one cannot go on; false if there is none.
bool blocked() {
  Thread* me = self;
  const int n = next(me->id);
  if (n < 0) return false;
  transfer(me, n);
  return true;
}

struct Cell {
  uint32_t read[kMax] = {0}, write[kMax] = {0};
  uint8_t rmask[kMax] = {0}, wmask[kMax] = {0};
};
std::unordered_map<uintptr_t, Cell>* shadow;
std::unordered_map<uintptr_t, Clock>* objects;

uintptr_t base() {
  static uintptr_t b = [] {
    Dl_info i;
    return dladdr(reinterpret_cast<void*>(&futex_wake), &i) ? uintptr_t(i.dli_fbase) : uintptr_t(0);
  }();
  return b;
}

void watch(uintptr_t a, size_t size, bool write, uintptr_t pc) {
  Thread* me = self;
  while (size) {
    const uintptr_t cell = a >> 3;
    const unsigned off = unsigned(a & 7);
    const unsigned n = unsigned(size < 8 - off ? size : 8 - off);
    const uint8_t mask = uint8_t(((1u << n) - 1) << off);
    Cell& c = (*shadow)[cell];
    for (int t = 0; t < count; ++t) {
      if (t == me->id) continue;
      const bool w = c.write[t] > me->clock.c[t] && (c.wmask[t] & mask);
      const bool r = write && c.read[t] > me->clock.c[t] && (c.rmask[t] & mask);
      if ((w || r) && report.problem.empty()) {
        char b[200];
        snprintf(b, sizeof b, "data race: thread %d %s memory that thread %d has %s, without synchronisation (code offset 0x%lx)", me->id, write ? "writes" : "reads", t, w ? "written" : "read",
                 (unsigned long)(pc - base()));
        report.problem = b;
      }
    }
    uint32_t* e = write ? c.write : c.read;
    uint8_t* m = write ? c.wmask : c.rmask;
    if (e[me->id] != me->clock.c[me->id]) m[me->id] = 0;
    e[me->id] = me->clock.c[me->id];
    m[me->id] |= mask;
    a += n;
    size -= n;
  }
}

void access(const void* p, size_t size, bool write, uintptr_t pc) {
  Thread* me = self;
  if (!me || inside) return;
  const uintptr_t a = uintptr_t(p);
  if (a >= me->stack_lo && a < me->stack_hi) return;
  ++inside;
  bool ro = false;
  if (a < uintptr_t(me->arena) || a >= uintptr_t(me->arena) + kArena) {
    for (auto& r : readonly)
      if (a >= r.lo && a < r.hi) {
        ro = true;
        break;
      }
    if (!ro) {
      ++report.shared;
      point(true);
    }
  }
  if (!ro) watch(a, size, write, pc);
  --inside;
}

void enter() {
  if (!self || inside) return;
  ++inside;
  point(false);
  --inside;
}

void acquire(const void* o) {
  auto i = objects->find(uintptr_t(o));
  if (i != objects->end()) self->clock.join(i->second);
}
void release(const void* o) {
  (*objects)[uintptr_t(o)].join(self->clock);
  ++self->clock.c[self->id];
}
void sync(const void* o) {  // both; a scheduling point before it
  if (!self || inside) return;
  ++inside;
  point(true);
  acquire(o);
  release(o);
  --inside;
}

void* start(void* p) {
  auto* me = static_cast<Thread*>(p);
  pthread_attr_t attr;
  pthread_getattr_np(pthread_self(), &attr);
  void* lo;
  size_t size;
  pthread_attr_getstack(&attr, &lo, &size);
  pthread_attr_destroy(&attr);
  me->stack_lo = uintptr_t(lo);
  me->stack_hi = uintptr_t(lo) + size;
  finished.fetch_add(1);
  await(*me);
  self = me;
  me->body();
  ++inside;
  me->done = true;
  self = nullptr;
  const int n = next(-1);
  if (n >= 0)
    give(threads[n]);
  // Destructors of thread-local objects run behind this, next to the other threads: they are the thread's own.
  return nullptr;
}

}  // namespace

Quiet::Quiet() { ++inside; }
Quiet::~Quiet() { --inside; }

Report run(const std::vector<std::function<void()>>& bodies, const std::vector<Segment>& schedule, bool coarse) {
  FILE* f = fopen("/proc/self/maps", "r");
  char line[600];
  while (f && fgets(line, sizeof line, f)) {
    unsigned long lo, hi;
    char perm[8];
    if (sscanf(line, "%lx-%lx %7s", &lo, &hi, perm) == 3 && perm[1] != 'w') readonly.push_back({lo, hi});
  }
  if (f) fclose(f);
  // The executable's own constants first.
  base();
  shadow = new std::unordered_map<uintptr_t, Cell>(1 << 14);
  objects = new std::unordered_map<uintptr_t, Clock>();
  count = int(bodies.size());
  plan = schedule;
  segment = 0;
  coarse_points = coarse;
  report = Report();
  for (int i = 0; i < count; ++i) {
    Thread& t = threads[i];
    t.id = i;
    t.body = bodies[size_t(i)];
    t.clock.c[i] = 1;
    t.arena = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    pthread_create(&t.handle, nullptr, start, &t);
  }
  while (finished.load() < count) sched_yield();
  const int n = next(-1);
  if (n >= 0) give(threads[n]);
  for (int i = 0; i < count; ++i) pthread_join(threads[i].handle, nullptr);
  for (int i = 0; i < count; ++i) report.points.push_back(threads[i].points);
  return report;
}

}  // namespace sched

using namespace sched;

// ---- Allocation: every controlled thread has memory of its own; nothing is reused, and freed memory is overwritten.

namespace {
struct Header {
  size_t size, magic;
};
Thread* owner(void* p) {
  for (int i = 0; i < count; ++i)
    if (threads[i].arena && static_cast<char*>(p) >= threads[i].arena && static_cast<char*>(p) < threads[i].arena + kArena) return &threads[i];
  return nullptr;
}
void* take(size_t n) {
  Thread* me = self;
  enter();
  const size_t need = ((n + 15) & ~size_t(15)) + sizeof(Header);
  if (me->used + need > kArena) return nullptr;
  auto* h = reinterpret_cast<Header*>(me->arena + me->used);
  me->used += need;
  h->size = n;
  h->magic = 0x5eed;
  memset(h + 1, 0xA5, n);
  return h + 1;
}
}  // namespace

extern "C" {
void* malloc(size_t n) {
  if (self && !inside)
    if (void* p = take(n)) return p;
  return __libc_malloc(n);
}
void free(void* p) {
  if (!p) return;
  if (count && owner(p)) {
    auto* h = static_cast<Header*>(p) - 1;
    if (self && !inside) {
      enter();
      access(p, h->size ? h->size : 1, true, uintptr_t(__builtin_return_address(0)));
    }
    if (h->magic != 0x5eed) {
      report.problem = "a block is freed twice";
      return;
    }
    h->magic = 0xdead;
    memset(p, 0xA5, h->size);
    return;
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (self && !inside)
    if (void* p = take(a * b)) return memset(p, 0, a * b);
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  const bool mine = p && count && owner(p);
  if (!mine && (!self || inside)) return __libc_realloc(p, n);
  if (!mine && p) return __libc_realloc(p, n);
  void* q = malloc(n);
  if (p) {
    const size_t old = (static_cast<Header*>(p) - 1)->size;
    memcpy(q, p, old < n ? old : n);
    free(p);
  }
  return q;
}

// ---- What the instrumented library calls.

#define PC uintptr_t(__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*) { enter(); }
void __tsan_func_exit() {}
#define ACCESS(n)                                                            \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }                  \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }                  \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }        \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }        \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }         \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }         \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

#define ATOMIC(bits, T)                                                                                                \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { sync((const void*)a); return __atomic_load_n(a, 5); }       \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { sync((const void*)a); __atomic_store_n(a, v, 5); }       \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { sync((const void*)a); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { sync((const void*)a); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { sync((const void*)a); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { sync((const void*)a); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { sync((const void*)a); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { sync((const void*)a); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { sync((const void*)a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sync((const void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sync((const void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sync((const void*)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sync(&report); }
void __tsan_atomic_signal_fence(int) {}

// ---- Synchronisation: threads wait for each other by giving up their turn.

static void deadlock() {
  if (report.problem.empty()) report.problem = "deadlock";
  fprintf(stderr, "deadlock\n");
  _exit(43);
}
// Without a guard, which would be an ordering of the threads.
#define LOAD(var, name)                 \
  static decltype(&name) var = nullptr; \
  if (!var) var = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  LOAD(real, pthread_mutex_lock);
  LOAD(attempt, pthread_mutex_trylock);
  if (!self || inside) return real(m);
  ++inside;
  point(true);
  int r;
  while ((r = attempt(m)) == EBUSY)
    if (!blocked()) deadlock();
  acquire(m);
  --inside;
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  LOAD(attempt, pthread_mutex_trylock);
  if (!self || inside) return attempt(m);
  ++inside;
  point(true);
  const int r = attempt(m);
  if (!r) acquire(m);
  --inside;
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  LOAD(real, pthread_mutex_unlock);
  if (!self || inside) return real(m);
  ++inside;
  release(m);
  const int r = real(m);
  point(true);
  --inside;
  return r;
}
static int rwlock(pthread_rwlock_t* l, int (*attempt)(pthread_rwlock_t*)) {
  ++inside;
  point(true);
  int r;
  while ((r = attempt(l)) == EBUSY)
    if (!blocked()) deadlock();
  acquire(l);
  --inside;
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
  LOAD(real, pthread_rwlock_rdlock);
  LOAD(attempt, pthread_rwlock_tryrdlock);
  return !self || inside ? real(l) : rwlock(l, attempt);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept {
  LOAD(real, pthread_rwlock_wrlock);
  LOAD(attempt, pthread_rwlock_trywrlock);
  return !self || inside ? real(l) : rwlock(l, attempt);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  LOAD(real, pthread_rwlock_unlock);
  if (!self || inside) return real(l);
  ++inside;
  release(l);
  const int r = real(l);
  point(true);
  --inside;
  return r;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  LOAD(real, pthread_once);
  if (!self || inside) return real(o, f);
  // States of our own in the object: 0 new, 1 running, 2 done (which is also glibc's).
  auto* s = reinterpret_cast<volatile int*>(o);
  sync(o);
  while (*s == 1) {
    ++inside;
    if (!blocked()) deadlock();
    --inside;
  }
  if (*s == 0) {
    *s = 1;
    f();
    *s = 2;
    sync(o);
  } else {
    sync(o);
  }
  return 0;
}
// Function-local statics.
int __cxa_guard_acquire(long long* g) {
  auto* s = reinterpret_cast<volatile uint8_t*>(g);
  if (self && !inside) sync(g);
  while (true) {
    if (s[0]) {
      if (self && !inside) sync(g);
      return 0;
    }
    if (!s[1]) {
      s[1] = 1;
      return 1;
    }
    if (!self) {
      sched_yield();
      continue;
    }
    ++inside;
    if (!blocked()) deadlock();
    --inside;
  }
}
void __cxa_guard_release(long long* g) {
  if (self && !inside) sync(g);
  auto* s = reinterpret_cast<volatile uint8_t*>(g);
  s[1] = 0;
  s[0] = 1;
}
void __cxa_guard_abort(long long* g) {
  auto* s = reinterpret_cast<volatile uint8_t*>(g);
  s[1] = 0;
  if (self && !inside) sync(g);
}

// ---- Memory and strings, which the compiler does not instrument: also what the C++ library does with them.

static inline void saw(const void* p, size_t n, bool write, uintptr_t pc) {
  if (self && !inside && n) access(p, n, write, pc);
}
static inline size_t length(const char* s) {
  size_t n = 0;
  while (s[n]) ++n;
  return n;
}
void* memcpy(void* to, const void* from, size_t n) noexcept {
  saw(from, n, false, PC);
  saw(to, n, true, PC);
  void* r = to;
  __asm__ volatile("rep movsb" : "+D"(to), "+S"(from), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* to, const void* from, size_t n) noexcept {
  saw(from, n, false, PC);
  saw(to, n, true, PC);
  void* r = to;
  if (uintptr_t(to) - uintptr_t(from) >= n) {
    __asm__ volatile("rep movsb" : "+D"(to), "+S"(from), "+c"(n) : : "memory");
  } else {
    to = static_cast<char*>(to) + n - 1;
    from = static_cast<const char*>(from) + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(to), "+S"(from), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* to, int c, size_t n) noexcept {
  saw(to, n, true, PC);
  void* r = to;
  __asm__ volatile("rep stosb" : "+D"(to), "+c"(n) : "a"(c) : "memory");
  return r;
}
int memcmp(const void* a, const void* b, size_t n) noexcept {
  LOAD(real, memcmp);
  saw(a, n, false, PC);
  saw(b, n, false, PC);
  return real(a, b, n);
}
size_t strlen(const char* s) noexcept {
  LOAD(real, strlen);
  const size_t n = real(s);
  saw(s, n + 1, false, PC);
  return n;
}
char* strdup(const char* s) noexcept {
  LOAD(real, strdup);
  saw(s, length(s) + 1, false, PC);
  return real(s);
}
char* strndup(const char* s, size_t n) noexcept {
  LOAD(real, strndup);
  saw(s, strnlen(s, n), false, PC);
  return real(s, n);
}
char* strcpy(char* to, const char* from) noexcept {
  LOAD(real, strcpy);
  const size_t n = length(from) + 1;
  saw(from, n, false, PC);
  saw(to, n, true, PC);
  return real(to, from);
}
char* strncpy(char* to, const char* from, size_t n) noexcept {
  LOAD(real, strncpy);
  saw(from, strnlen(from, n), false, PC);
  saw(to, n, true, PC);
  return real(to, from, n);
}
char* strcat(char* to, const char* from) noexcept {
  LOAD(real, strcat);
  const size_t n = length(from) + 1, m = length(to);
  saw(from, n, false, PC);
  saw(to, n + m, true, PC);
  return real(to, from);
}
char* strncat(char* to, const char* from, size_t k) noexcept {
  LOAD(real, strncat);
  const size_t n = strnlen(from, k), m = length(to);
  saw(from, n, false, PC);
  saw(to, n + m + 1, true, PC);
  return real(to, from, k);
}
#define COMPARE(name)                                    \
  int name(const char* a, const char* b) noexcept {      \
    LOAD(real, name);                                    \
    if (self && !inside) {                               \
      saw(a, length(a) + 1, false, PC);                  \
      saw(b, length(b) + 1, false, PC);                  \
    }                                                    \
    return real(a, b);                                   \
  }
COMPARE(strcmp)
COMPARE(strcasecmp)
#define COMPARE_N(name)                                  \
  int name(const char* a, const char* b, size_t n) noexcept { \
    LOAD(real, name);                                    \
    if (self && !inside) {                               \
      saw(a, strnlen(a, n), false, PC);                  \
      saw(b, strnlen(b, n), false, PC);                  \
    }                                                    \
    return real(a, b, n);                                \
  }
COMPARE_N(strncmp)
COMPARE_N(strncasecmp)
int vsnprintf(char* to, size_t n, const char* f, va_list a) noexcept {
  LOAD(real, vsnprintf);
  saw(f, length(f) + 1, false, PC);
  const int r = real(to, n, f, a);
  if (r >= 0 && n) saw(to, size_t(r) < n ? size_t(r) + 1 : n, true, PC);
  return r;
}
int snprintf(char* to, size_t n, const char* f, ...) noexcept {
  va_list a;
  va_start(a, f);
  const int r = vsnprintf(to, n, f, a);
  va_end(a);
  return r;
}
int vsprintf(char* to, const char* f, va_list a) noexcept { return vsnprintf(to, size_t(1) << 30, f, a); }
int sprintf(char* to, const char* f, ...) noexcept {
  va_list a;
  va_start(a, f);
  const int r = vsnprintf(to, size_t(1) << 30, f, a);
  va_end(a);
  return r;
}

// ---- C library functions with a state that all threads share: points before and behind them, and a write of it.

static int libc_state[8];
#define SHARED(ret, name, params, args, slot)                        \
  ret name params {                                                  \
    LOAD(real, name);                                   \
    if (!self || inside) return real args;                           \
    access(&libc_state[slot], 4, true, PC);                          \
    ret r = real args;                                               \
    enter();                                                         \
    return r;                                                        \
  }
SHARED(char*, setlocale, (int c, const char* l) noexcept, (c, l), 0)
SHARED(char*, strtok, (char* s, const char* d) noexcept, (s, d), 1)
SHARED(struct tm*, localtime, (const time_t* t) noexcept, (t), 2)
SHARED(struct tm*, gmtime, (const time_t* t) noexcept, (t), 2)
SHARED(char*, asctime, (const struct tm* t) noexcept, (t), 2)
SHARED(char*, ctime, (const time_t* t) noexcept, (t), 2)
SHARED(time_t, mktime, (struct tm* t) noexcept, (t), 2)
}
