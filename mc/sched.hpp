// sched.hpp - controlled scheduler for real code: threads are fibers of one OS thread, every mutex / rwlock / condition
// variable / atomic operation of instrumented code is a scheduling point, memory accesses feed a vector-clock race
// detector (so that exploring the order of synchronisation operations is enough), freed memory is quarantined.
// The code is compiled with -fsanitize=thread, whose callbacks are implemented by sched_rt.cpp instead of the sanitizer.
#ifndef MC_SCHED_HPP_
#define MC_SCHED_HPP_
#include <functional>
#include <string>
#include <vector>

namespace sched
{
struct Result
{
  std::string problem;      // empty: every thread finished, nothing raced, nothing is left locked
  int steps = 0;            // scheduling decisions
  int accesses = 0;         // instrumented memory accesses
  int preemptions = 0;
};
struct Options
{
  int preemptions = -1;     // at most this many switches away from a thread that could go on; -1: any number
  bool atomics = true;      // atomic operations are scheduling points (they always order memory)
};
// choose(n) picks among n runnable threads. Deterministic apart from it.
Result run(const std::vector<std::function<void()>> & threads, const std::function<int(int)> & choose, const Options & options = Options());
// in its scope accesses are not watched and the thread is not interrupted
#ifndef MC_QUIET_
#define MC_QUIET_
struct Quiet {Quiet(); ~Quiet();};
#endif
// logical time inside a thread, strictly increasing over all threads
long tick();
}  // namespace sched
#endif  // MC_SCHED_HPP_
