// Families of texts that grow with a number: repetitions of every list of the dialect, and nestings.
#pragma once
#include <functional>
#include <string>
#include <vector>

struct Family {
  const char* name;
  bool nested;  // grows in depth
  std::function<std::string(size_t)> text;
};

const std::vector<Family>& families();
// The kinds of statements (bit set over GenKind) of the family.
unsigned family_kinds(const Family& f);
const Family* family(const std::string& name);
// 0..70 and the surroundings of powers of two and ten up to `most`.
std::vector<size_t> family_sizes(size_t most, size_t dense = 70);
// Runs f on a thread with a large stack (for recursive walks over deep trees).
void on_big_stack(const std::function<void()>& f);
