// C03: Bundle.
#include <thread>

#include "base/bundle.hpp"
#include "harness/mc_util.h"

using principia::base::_bundle::Bundle;
using namespace mcu;

namespace {
enum { kStart = 1, kEnd = 2, kJoined = 3, kGo = 4 };

absl::Status Task(int const i, absl::Status const& status) {
  mc::Log(kStart, i);
  mc::Point("task");
  mc::Log(kEnd, i);
  return status;
}
absl::Status Error(int const i) {
  switch (i) {
    case 0: return absl::OkStatus();
    case 1: return absl::CancelledError("one");
    default: return absl::UnknownError("two");
  }
}

void CheckTasks(int const n) {
  for (int i = 0; i < n; ++i) {
    mc::Check(Count(kStart, i) == 1, "a task was not executed exactly once");
    mc::Check(Count(kEnd, i) == 1, "a task outlived Join");
  }
}
}  // namespace

// Join waits for everybody, and reports one of the errors if there is one, else
// OK.
MC_HARNESS(join, .preemptions = 4, .thorough_preemptions = 6, .must_reach = 3) {
  int const e0 = mc::Choose(3);
  int const e1 = mc::Choose(3);
  int r[2] = {0, 0};
  {
    Bundle b;
    b.Add([&] { r[0] = 1; return Task(0, Error(e0)); });
    b.Add([&] { r[1] = 2; return Task(1, Error(e1)); });
    absl::Status const s = b.Join();
    CheckTasks(2);
    mc::Check(r[0] + r[1] == 3, "effects are not visible after Join");
    if (e0 == 0 && e1 == 0) {
      mc::Check(s.ok(), "an error from nowhere");
    } else {
      mc::Check(!s.ok(), "an error was lost");
      mc::Check((e0 != 0 && s.code() == Error(e0).code()) ||
                    (e1 != 0 && s.code() == Error(e1).code()),
                "not the error of a task");
    }
    if (e0 == 1 && e1 == 2) {
      mc::Reach(s.code() == Error(1).code() ? 0 : 1);
    }
    mc::Observe(std::to_string(e0) + std::to_string(e1) + s.ToString());
  }
}

// The first error is the one that is reported.
MC_HARNESS(first_error, .preemptions = 4, .thorough_preemptions = 6) {
  {
    Bundle b;
    b.Add([&] { return Task(0, Error(1)); });
    b.Add([&] {
      Task(1, absl::OkStatus());
      // Make sure that the first task has recorded its status.
      mc::BlockUntil([] { return mc::Exited(1); });
      return Error(2);
    });
    mc::Check(b.Join().code() == absl::StatusCode::kCancelled,
              "not the first error");
    CheckTasks(2);
  }
}

// An empty bundle.
MC_HARNESS(empty, .preemptions = 3, .thorough_preemptions = 5) {
  int const how = mc::Choose(3);
  {
    Bundle b;
    absl::Status const s =
        how == 0   ? b.Join()
        : how == 1 ? b.JoinWithin(std::chrono::milliseconds(1))
                   : b.JoinBefore(std::chrono::system_clock::now() +
                                  std::chrono::milliseconds(1));
    mc::Check(s.ok(), "an empty bundle failed");
  }
}

// Three tasks, added by two threads, and by another task.
MC_HARNESS(adders, .preemptions = 3, .thorough_preemptions = 4) {
  {
    Bundle b;
    std::thread other([&] {
      b.Add([&] { return Task(0, absl::OkStatus()); });
    });
    b.Add([&] {
      b.Add([&] { return Task(2, Error(1)); });
      return Task(1, absl::OkStatus());
    });
    other.join();
    Await(kStart, 1);
    mc::Check(b.Join().code() == absl::StatusCode::kCancelled, "lost error");
    CheckTasks(3);
  }
}

// Joining with a limit: the deadline is only reported if the time has elapsed,
// and even then all the tasks are joined.
MC_HARNESS(within, .preemptions = 3, .thorough_preemptions = 5,
           .must_reach = 15) {
  int const how = mc::Choose(2);
  int const e = mc::Choose(2);
  int const slow = mc::Choose(2);
  {
    Bundle b;
    auto const t0 = mc::NowNs();
    b.Add([&] {
      if (slow) {
        std::this_thread::sleep_for(std::chrono::milliseconds(20));
      }
      return Task(0, Error(e));
    });
    b.Add([&] { return Task(1, absl::OkStatus()); });
    absl::Status const s =
        how == 0 ? b.JoinWithin(std::chrono::milliseconds(10))
                 : b.JoinBefore(std::chrono::system_clock::now() +
                                std::chrono::milliseconds(10));
    CheckTasks(2);
    if (s.code() == absl::StatusCode::kDeadlineExceeded) {
      mc::Check(mc::NowNs() - t0 >= 10'000'000, "too early");
    } else {
      mc::Check(s.code() == Error(e).code(), "the wrong status");
    }
    if (s.code() == absl::StatusCode::kDeadlineExceeded) {
      mc::Reach(how);
    } else {
      mc::Reach(2 + how);
    }
    mc::Observe(std::to_string(slow) + s.ToString());
  }
}

// Tasks that need each other run concurrently.
MC_HARNESS(concurrent, .preemptions = 3, .thorough_preemptions = 5) {
  {
    Bundle b;
    for (int i = 0; i < 2; ++i) {
      b.Add([i] {
        mc::Log(kStart, i);
        Await(kStart, 1 - i);
        mc::Log(kEnd, i);
        return absl::OkStatus();
      });
    }
    mc::Check(b.Join().ok(), "ok");
    CheckTasks(2);
  }
}
