// Counts the blocks that a call leaves allocated (AddressSanitizer builds).
#pragma once
#include <cstddef>
#include <string>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace blocks {

inline bool counting;
inline long live;
inline void on_malloc(const volatile void*, size_t) {
  if (counting) ++live;
}
inline void on_free(const volatile void* p) {
  if (counting && p) --live;
}
inline void init() {
  static const bool once = [] {
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    return true;
  }();
  (void)once;
}

// Number of blocks that f leaves allocated each time it is called.
template <class F>
long balance(F f) {
  init();
  long left = 0;
  for (int again = 0; again < 3; ++again) {
    live = 0;
    counting = true;
    f();
    counting = false;
    left = live;
    // What the library sets up once (a buffer that it keeps) is not allocated again.
    if (left == 0) break;
  }
  return left;
}

inline std::string leak(long n, const std::string& what) {
  return n > 0 ? std::to_string(n) + " blocks are not freed after " + what : std::to_string(-n) + " more blocks were freed than allocated by " + what;
}

}  // namespace blocks
