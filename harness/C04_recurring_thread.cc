// C04: RecurringThread.
#include <chrono>
#include <optional>
#include <thread>

#include "base/recurring_thread.hpp"
#include "harness/mc_util.h"

using principia::base::_recurring_thread::RecurringThread;
using namespace mcu;
using namespace std::chrono_literals;

namespace {
enum { kStart = 1, kEnd = 2, kStopped = 3, kStarted = 4, kPut = 5, kGot = 6,
       kStopping = 7, kGo = 8 };

absl::StatusOr<int> Action(int const i) {
  mc::Log(kStart, i);
  mc::Point("action");
  mc::Log(kEnd, i);
  if (i < 0) {
    return absl::UnknownError("negative");
  }
  return 100 + i;
}

// Never overlapping, each input at most once and in the order in which they
// were put.
void CheckActions() {
  mc::Check(MaxConcurrency(kStart, kEnd) <= 1, "overlapping actions");
  std::vector<std::int64_t> puts;
  std::size_t next = 0;
  for (int i = 0; i < mc::LogSize(); ++i) {
    auto const e = mc::LogAt(i);
    if (e.tag == kPut) {
      puts.push_back(e.a);
    } else if (e.tag == kStart) {
      while (next < puts.size() && puts[next] != e.a) {
        ++next;
      }
      mc::Check(next < puts.size(),
                "an action on an input that was not put, or for the second "
                "time, or out of order");
      ++next;
    }
  }
  bool stopped = true;
  for (int i = 0; i < mc::LogSize(); ++i) {
    auto const e = mc::LogAt(i);
    if (e.tag == kStarted) { stopped = false; }
    if (e.tag == kStopped) { stopped = true; }
    if (e.tag == kStart || e.tag == kEnd) {
      mc::Check(!stopped, "an action while stopped");
    }
  }
}
template<typename R>
void Put(R& r, int const i) {
  mc::Log(kPut, i);
  r.Put(i);
}
}  // namespace

// The last input is eventually processed, the output is what the action
// returned, and it's only delivered once.
MC_HARNESS(delivery, .preemptions = 4, .thorough_preemptions = 5) {
  {
    RecurringThread<int, int> r(Action, 10ms);
    mc::Check(!r.Get().has_value(), "an output from nowhere");
    Put(r, 1);
    mc::Log(kStarted);
    r.Start();
    r.Start();  // Idempotent.
    Put(r, 2);
    std::vector<int> outputs;
    for (int i = 0; i < 6; ++i) {
      auto const o = r.Get();
      if (o.has_value()) {
        outputs.push_back(*o);
        mc::Check(Logged(kEnd, *o - 100), "an output before its action");
        if (*o == 102) { break; }
      }
      std::this_thread::sleep_for(10ms);
    }
    // In six periods of virtual time, the action has run, unless the scheduler
    // has starved it.
    if (Logged(kEnd, 2)) {
      std::this_thread::sleep_for(10ms);
    }
    bool const one = !outputs.empty() && outputs[0] == 101;
    mc::Check(outputs.size() <= 2, "too many outputs");
    if (outputs.size() == 2) {
      mc::Check(outputs[0] == 101 && outputs[1] == 102, "wrong outputs");
    }
    if (outputs.size() == 1) {
      mc::Check(outputs[0] == 101 || outputs[0] == 102, "wrong output");
    }
    r.Stop();
    mc::Log(kStopped);
    r.Stop();
    if (!outputs.empty() && outputs.back() == 102) {
      mc::Check(!r.Get().has_value(), "an output was delivered twice");
    }
    CheckActions();
    mc::Observe(Trace() + (one ? "one" : ""));
  }
  CheckActions();
}

// Waiting for the output, however long it takes, always succeeds.
MC_HARNESS(liveness, .preemptions = 3, .thorough_preemptions = 5,
           .max_steps = 3000, .livelock_is_violation = false) {
  {
    RecurringThread<int, int> r(Action, 10ms);
    mc::Log(kStarted);
    r.Start();
    Put(r, 7);
    Await(kEnd, 7);
    // No new input: the action doesn't run again.
    std::optional<int> o;
    for (int i = 0; i < 50 && !o.has_value(); ++i) {
      std::this_thread::sleep_for(10ms);
      o = r.Get();
    }
    mc::Check(o.has_value() && *o == 107, "the output was lost");
    mc::Check(Count(kStart) == 1, "ran again without an input");
    mc::Log(kStopping);
  }
  mc::Log(kStopped);
  CheckActions();
}

// The rate is limited: the n-th action doesn't start before n - 1 periods.
MC_HARNESS(rate, .preemptions = 3, .thorough_preemptions = 4) {
  {
    RecurringThread<int, int> r(Action, 10ms);
    auto const t0 = mc::NowNs();
    mc::Log(kStarted);
    r.Start();
    for (int i = 1; i <= 3; ++i) {
      Put(r, i);
      Await(kEnd, i);
    }
    r.Stop();
    mc::Log(kStopped);
    for (int i = 1; i <= 3; ++i) {
      mc::Check(mc::LogAt(IndexOf(kStart, i)).time_ns - t0 >=
                    (i - 1) * 10'000'000ll,
                "actions run more often than once per period");
    }
  }
  CheckActions();
}

// An action that fails produces no output and doesn't stop the recurrence.
MC_HARNESS(failure, .preemptions = 3, .thorough_preemptions = 4) {
  {
    RecurringThread<int, int> r(Action, 10ms);
    mc::Log(kStarted);
    r.Start();
    Put(r, -1);
    Await(kEnd, -1);
    std::this_thread::sleep_for(30ms);
    mc::Check(!r.Get().has_value(), "the output of a failed action");
    Put(r, 2);
    Await(kEnd, 2);
    std::optional<int> o;
    for (int i = 0; i < 20 && !o.has_value(); ++i) {
      std::this_thread::sleep_for(10ms);
      o = r.Get();
    }
    mc::Check(o.has_value() && *o == 102, "the output was lost");
    r.Stop();
    mc::Log(kStopped);
  }
  CheckActions();
}

// Stop is synchronous, from any thread, and the thread may be started again.
MC_HARNESS(stop, .preemptions = 3, .thorough_preemptions = 5) {
  bool const restart = mc::Choose(2) == 1;
  {
    RecurringThread<int, int> r(Action, 10ms);
    mc::Log(kStarted);
    r.Start();
    Put(r, 1);
    if (mc::Choose(2) == 1) {
      Await(kStart, 1);
    }
    if (restart) {
      r.Restart();
    } else {
      r.Stop();
      mc::Log(kStopped);
      std::this_thread::sleep_for(30ms);
      mc::Log(kStarted);
      r.Start();
    }
    Put(r, 2);
    Await(kEnd, 2);
    std::optional<int> o;
    for (int i = 0; i < 20 && (!o.has_value() || *o != 102); ++i) {
      std::this_thread::sleep_for(10ms);
      o = r.Get();
    }
    mc::Check(o.has_value() && *o == 102, "the output was lost");
    mc::Log(kStopping);
  }
  mc::Log(kStopped);
  CheckActions();
  mc::Observe(Trace());
}

// Two threads start, restart and stop.
MC_HARNESS(control, .preemptions = 3, .thorough_preemptions = 4) {
  {
    RecurringThread<int, int> r(Action, 10ms);
    Put(r, 1);
    mc::Log(kStarted);
    std::thread other([&] {
      if (mc::Choose(2) == 1) { r.Restart(); } else { r.Start(); }
    });
    r.Start();
    if (mc::Choose(2) == 1) { r.Stop(); }
    other.join();
    r.Stop();
    mc::Log(kStopped);
    std::this_thread::sleep_for(20ms);
  }
  CheckActions();
}

// The variant without an output, destroyed while it runs.
MC_HARNESS(no_output, .preemptions = 4, .thorough_preemptions = 5) {
  int last = 0;
  {
    RecurringThread<int> r(
        [&](int const i) -> absl::Status {
          last = i;
          return Action(i).status();
        },
        10ms);
    mc::Log(kStarted);
    r.Start();
    Put(r, 1);
    if (mc::Choose(2) == 1) {
      Put(r, 2);
      Await(kEnd, 2);
    }
    mc::Log(kStopping);
  }
  mc::Log(kStopped);
  mc::Check(Count(kEnd) == 0 || last != 0, "last");
  CheckActions();
  mc::Observe(Trace());
}
