// A stateless model checker for real C++ code.
//
// The code under test and the harness are compiled with -fsanitize=thread
// instrumentation but linked with mc.cc instead of the TSan runtime.  Exactly
// one thread runs at a time; at every visible operation (mutex, notification,
// atomic, future, thread start/join, sleep) the scheduler decides who goes
// next, and the decisions are enumerated depth-first up to a bound on
// deviations (preemptions and early timeouts).  Time is virtual.  Plain memory
// accesses are checked for data races with vector clocks and for use of freed
// memory, so that scheduling at synchronization operations only is exhaustive.
#pragma once

#include <cstdint>
#include <functional>
#include <string>

namespace mc {

// An explored, cost-free choice in [0, n).
int Choose(int n);

// Reports a violation of the property and ends the run.
[[noreturn]] void Fail(std::string const& message);
inline void Check(bool const condition, char const* const message) {
  if (!condition) { Fail(message); }
}

// Contributes to the outcome of this execution (for coverage statistics).  Call
// it from the main thread, or for events whose order matters.
void Observe(std::string const& what);

// Records that a situation in [0, 64) is possible.
void Reach(int situation);

// A scheduling point that depends on everything (used in harness tasks to open
// a window inside a user function).
void Point(char const* what);

// Virtual time, in ns.
std::int64_t NowNs();

// True iff called from a controlled thread of an execution.
bool Active();

// The identity of the current thread, in order of creation (0 is main).
int ThreadId();

// True iff the given thread has terminated.
bool Exited(int thread_id);

// An append-only log of events, in schedule order, which is not subject to race
// detection and doesn't create happens-before edges.
void Log(int tag, std::int64_t a = 0, std::int64_t b = 0);
struct Event { int thread; int tag; std::int64_t a; std::int64_t b;
               std::int64_t time_ns; };
int LogSize();
Event LogAt(int i);

// Makes the current thread wait (in a modelled manner) until `f` is true.  `f`
// is evaluated by the scheduler.
void BlockUntil(std::function<bool()> const& f);

// Harness registration.
struct Options {
  int preemptions = 2;         // Quick bound.
  int thorough_preemptions = 3;
  int max_steps = 4000;        // Beyond that the execution counts as livelocked.
  // If true, an execution that ends with threads that are still running is a
  // violation.
  bool no_leftover_threads = true;
  // If true, exceeding `max_steps` is a violation (else the execution is
  // abandoned and counted as truncated).
  bool livelock_is_violation = true;
  // A set of situations (see Reach) that must be reached by at least one of the
  // executions.
  std::uint64_t must_reach = 0;
};
struct Registrar {
  Registrar(char const* name, void (*body)(), Options options = Options());
};

}  // namespace mc

#define MC_HARNESS(name, ...)                                             \
  static void name##_body();                                              \
  static ::mc::Registrar name##_registrar(#name, &name##_body,            \
                                          ::mc::Options{__VA_ARGS__});    \
  static void name##_body()

// Internal interface, for the shadow headers.
namespace mc::internal {
enum class Kind : int {
  kStart, kLock, kReaderLock, kAwait, kNotifyWait, kJoin, kAtomic, kYield,
  kSleep, kFutex, kPoint, kNotify, kOnce, kBlock, kExit
};
constexpr std::int64_t kNever = INT64_MAX;

// Publishes the intent of doing an operation on `object`, and returns when the
// scheduler has selected this thread.  Returns false iff the operation timed
// out.
bool Visible(Kind kind, void const* object, bool (*enabled)(void*), void* arg,
             std::int64_t deadline_ns = kNever);
void Acquire(void const* object);   // Join the clock of object into the thread.
void Release(void const* object);   // Join the thread's clock into the object.
void ReleaseStore(void const* object);
void Forget(void const* object);
void Fatal(std::string const& message);
}  // namespace mc::internal
