// Exploration engine: runs a property's check on every case of its exploration, with crash and hang detection.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <string_view>
#include <vector>

// One explored execution. `check` decides it from these values alone, so it can be replayed.
struct Case {
  const char* phase = "";
  std::vector<std::string> args;
  Case() {}
  Case(const char* p, std::string a) : phase(p) { args.push_back(std::move(a)); }
  Case(const char* p, std::string a, std::string b) : phase(p) {
    args.push_back(std::move(a));
    args.push_back(std::move(b));
  }
  Case(const char* p, std::vector<std::string> a) : phase(p), args(std::move(a)) {}
};

struct Engine {
  bool thorough = false;
  size_t shard = 0, shards = 1;
  // For work that is not divided by the explorer: is the next unit this worker's?
  bool mine() { return units++ % shards == shard && !late(); }
  // Decides one case; repeated cases are decided once.
  void run(const Case& c);
  // A distinct behaviour that was observed (valid tree, error position, ...), for the coverage report.
  static void outcome(std::string_view s);
  bool stop() const { return violations >= 5; }
  // The time for this run is over: nothing more is run, and what was not is reported.
  bool late();

  size_t units = 0;
  uint64_t cases = 0;
  size_t violations = 0;
  long until = 0;
  unsigned asked = 0;
  bool over = false;
};

// Every property is one translation unit that defines these.
extern const char* const kProperty;
std::string check(const Case& c);  // empty if the property holds
void explore(Engine& e);
// Bounds of this run, for the evidence file.
void bounds(std::map<std::string, std::string>& b, bool thorough);
