// Controlled scheduler: runs threads one at a time and switches between them only where a schedule says so. Scheduling
// points are the function entries, the accesses to memory that is not the thread's own, the allocations and the
// synchronisation operations of the library, which is compiled with -fsanitize=thread and linked with this runtime
// instead of ThreadSanitizer's. A vector-clock race detector watches all accesses.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Segment {
  int thread;
  long until;  // run until this thread has passed so many points (from its start); -1: to its end
};

struct Report {
  std::vector<long> points;   // passed by each thread
  long shared = 0;            // accesses to writable memory outside of the thread's own stack and allocations
  long switches = 0;          // preemptions that took place
  std::string problem;        // race or deadlock
};

// Runs the bodies as threads under the schedule; afterwards the rest in the order of their numbers. To be called at
// most once in a process. `coarse`: only shared accesses and synchronisation are points.
Report run(const std::vector<std::function<void()>>& bodies, const std::vector<Segment>& schedule, bool coarse);

// While one of these exists, what the thread does is its own business: no points, nothing is watched.
struct Quiet {
  Quiet();
  ~Quiet();
};

}  // namespace sched
