#include "cost.h"

#include <dlfcn.h>
#include <malloc.h>
#include <string.h>

#include <cstdlib>

namespace {
bool on;
uint64_t work, allocated;
int64_t live, peak;

inline void saw(size_t n) {
  if (on) work += n + 1;
}
inline void took(void* p, size_t n) {
  if (!on || !p) return;
  work += 8;
  allocated += n;
  live += int64_t(malloc_usable_size(p));
  if (live > peak) peak = live;
}
inline void gave(void* p) {
  if (!on || !p) return;
  work += 8;
  live -= int64_t(malloc_usable_size(p));
}
}  // namespace

Cost cost(const std::function<void()>& f) {
  work = allocated = 0;
  live = peak = 0;
  on = true;
  f();
  on = false;
  Cost c;
  c.work = work;
  c.allocated = allocated;
  c.peak = uint64_t(peak);
  return c;
}

#define LOAD(var, name)                 \
  static decltype(&name) var = nullptr; \
  if (!var) var = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);

void __sanitizer_cov_trace_pc() {
  if (on) ++work;
}

void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  took(p, n);
  return p;
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  took(p, a * b);
  saw(a * b);
  return p;
}
void* realloc(void* p, size_t n) {
  gave(p);
  saw(p ? malloc_usable_size(p) : 0);
  p = __libc_realloc(p, n);
  took(p, n);
  return p;
}
void free(void* p) {
  gave(p);
  __libc_free(p);
}

static inline size_t length(const char* s) {
  size_t n = 0;
  while (s[n]) ++n;
  return n;
}
static inline size_t bounded(const char* s, size_t most) {
  size_t n = 0;
  while (n < most && s[n]) ++n;
  return n;
}
void* memcpy(void* to, const void* from, size_t n) noexcept {
  saw(n);
  void* r = to;
  __asm__ volatile("rep movsb" : "+D"(to), "+S"(from), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* to, const void* from, size_t n) noexcept {
  saw(n);
  void* r = to;
  if (uintptr_t(to) - uintptr_t(from) >= n) {
    __asm__ volatile("rep movsb" : "+D"(to), "+S"(from), "+c"(n) : : "memory");
  } else {
    to = static_cast<char*>(to) + n - 1;
    from = static_cast<const char*>(from) + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(to), "+S"(from), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* to, int c, size_t n) noexcept {
  saw(n);
  void* r = to;
  __asm__ volatile("rep stosb" : "+D"(to), "+c"(n) : "a"(c) : "memory");
  return r;
}
int memcmp(const void* a, const void* b, size_t n) noexcept {
  LOAD(real, memcmp);
  if (on) {
    const char *x = static_cast<const char*>(a), *y = static_cast<const char*>(b);
    size_t i = 0;
    while (i < n && x[i] == y[i]) ++i;
    saw(i);
  }
  return real(a, b, n);
}
void cost_saw(size_t n) { saw(n); }
size_t strlen(const char* s) noexcept {
  const size_t n = length(s);
  saw(n);
  return n;
}
size_t strnlen(const char* s, size_t most) noexcept {
  const size_t n = bounded(s, most);
  saw(n);
  return n;
}
char* strdup(const char* s) noexcept {
  const size_t n = length(s) + 1;
  char* p = static_cast<char*>(malloc(n));
  return p ? static_cast<char*>(memcpy(p, s, n)) : p;
}
char* strndup(const char* s, size_t most) noexcept {
  const size_t n = bounded(s, most);
  char* p = static_cast<char*>(malloc(n + 1));
  if (!p) return p;
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
char* strcpy(char* to, const char* from) noexcept {
  memcpy(to, from, length(from) + 1);
  return to;
}
char* strncpy(char* to, const char* from, size_t n) noexcept {
  const size_t k = bounded(from, n);
  memcpy(to, from, k);
  memset(to + k, 0, n - k);
  return to;
}
char* strcat(char* to, const char* from) noexcept {
  const size_t n = length(to);
  saw(n);
  memcpy(to + n, from, length(from) + 1);
  return to;
}
char* strncat(char* to, const char* from, size_t most) noexcept {
  const size_t n = length(to), k = bounded(from, most);
  saw(n);
  memcpy(to + n, from, k);
  to[n + k] = 0;
  return to;
}
#define COMPARE(name)                                    \
  int name(const char* a, const char* b) noexcept {      \
    LOAD(real, name);                                    \
    if (on) {                                            \
      size_t i = 0;                                      \
      while (a[i] && a[i] == b[i]) ++i;                  \
      saw(i);                                            \
    }                                                    \
    return real(a, b);                                   \
  }
COMPARE(strcmp)
COMPARE(strcasecmp)
COMPARE(strcoll)
#define COMPARE_N(name)                                          \
  int name(const char* a, const char* b, size_t n) noexcept {    \
    LOAD(real, name);                                            \
    if (on) {                                                    \
      size_t i = 0;                                              \
      while (i < n && a[i] && a[i] == b[i]) ++i;                 \
      saw(i);                                                    \
    }                                                            \
    return real(a, b, n);                                        \
  }
COMPARE_N(strncmp)
COMPARE_N(strncasecmp)

}
