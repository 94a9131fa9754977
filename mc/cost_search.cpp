// The functions that search in strings or scan them, which the headers declare under other names or types.
#include <dlfcn.h>
#include <stdarg.h>
#include <stddef.h>

extern "C" {
extern void cost_saw(size_t);
#define LOAD(name, ...)                         \
  using F = void* (*)(__VA_ARGS__);             \
  static F real = nullptr;                      \
  if (!real) real = reinterpret_cast<F>(dlsym(RTLD_NEXT, name))
static size_t length(const char* s) {
  size_t n = 0;
  while (s[n]) ++n;
  return n;
}
static void to(const void* from, const void* r, size_t otherwise) { cost_saw(r ? size_t(static_cast<const char*>(r) - static_cast<const char*>(from)) : otherwise); }
void* memchr(const void* s, int c, size_t n) {
  LOAD("memchr", const void*, int, size_t);
  void* r = real(s, c, n);
  to(s, r, n);
  return r;
}
void* memrchr(const void* s, int c, size_t n) {
  LOAD("memrchr", const void*, int, size_t);
  cost_saw(n);
  return real(s, c, n);
}
void* memmem(const void* s, size_t n, const void* p, size_t m) {
  LOAD("memmem", const void*, size_t, const void*, size_t);
  void* r = real(s, n, p, m);
  to(s, r, n);
  return r;
}
void* strchr(const char* s, int c) {
  LOAD("strchr", const char*, int);
  void* r = real(s, c);
  to(s, r, length(s));
  return r;
}
void* strrchr(const char* s, int c) {
  LOAD("strrchr", const char*, int);
  cost_saw(length(s));
  return real(s, c);
}
void* strstr(const char* s, const char* p) {
  LOAD("strstr", const char*, const char*);
  void* r = real(s, p);
  to(s, r, length(s));
  return r;
}
void* strpbrk(const char* s, const char* p) {
  LOAD("strpbrk", const char*, const char*);
  void* r = real(s, p);
  to(s, r, length(s));
  return r;
}

// sscanf goes over all of its text, whatever it looks for.
int vsscanf(const char* s, const char* format, va_list a) {
  using F = int (*)(const char*, const char*, va_list);
  static F real = nullptr;
  if (!real) real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "vsscanf"));
  cost_saw(length(s));
  return real(s, format, a);
}
#define SCAN(name)                                \
  int name(const char* s, const char* format, ...) { \
    va_list a;                                    \
    va_start(a, format);                          \
    const int r = vsscanf(s, format, a);          \
    va_end(a);                                    \
    return r;                                     \
  }
SCAN(sscanf)
SCAN(__isoc99_sscanf)
SCAN(__isoc23_sscanf)
}
