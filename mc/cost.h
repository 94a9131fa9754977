// What a call costs: basic blocks of the library that were executed, bytes that memory and string functions went over,
// and bytes that were allocated. Counted, not timed, so it is the same in every run.
#pragma once
#include <cstdint>
#include <functional>

struct Cost {
  uint64_t work = 0;       // blocks executed, calls of and bytes touched by memory and string functions
  uint64_t allocated = 0;  // bytes requested in total
  uint64_t peak = 0;       // most bytes held at a time, beyond what was held before
};
// The cost of f.
Cost cost(const std::function<void()>& f);
