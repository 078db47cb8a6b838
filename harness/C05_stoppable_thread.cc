// C05: stoppable threads.
#include <chrono>
#include <thread>

#include "base/status_utilities.hpp"
#include "base/stoppable_thread.hpp"
#include "harness/mc_util.h"

using namespace principia::base::_stoppable_thread;
using namespace mcu;
using namespace std::chrono_literals;

namespace {
enum { kRun = 1, kDone = 2, kStopping = 3 };
absl::Status Work(int const id, int const n) {
  for (int i = 0; i < n; ++i) {
    RETURN_IF_STOPPED;
    mc::Log(kRun, id, i);
    mc::Point("work");
  }
  return absl::OkStatus();
}
absl::Status Forever(int const id) {
  for (;;) {
    RETURN_IF_STOPPED;
    std::this_thread::sleep_for(1ms);
  }
}
}  // namespace

// A stoppable thread runs to completion unless it's stopped; when it is, it
// stops at the next opportunity.
MC_HARNESS(stop, .preemptions = 5, .thorough_preemptions = 8) {
  bool const request = mc::Choose(2) == 1;
  absl::Status status;
  {
    std::jthread t = MakeStoppableThread([&](int const n) {
      status = Work(1, n);
      mc::Log(kDone, 1);
    }, 3);
    if (request) {
      mc::Log(kStopping);
      t.request_stop();
    }
    t.join();
  }
  mc::Check(Count(kDone) == 1, "join before the end");
  if (status.ok()) {
    mc::Check(Count(kRun) == 3, "some work was skipped");
  } else {
    mc::Check(request, "stopped without being asked");
    mc::Check(status.code() == absl::StatusCode::kCancelled, "cancelled");
    mc::Check(Count(kRun) < 3, "the work was complete");
  }
  // No more than the operation that was under way is done once the request has
  // been made.
  mc::Observe(Trace() + status.ToString());
}

// Destroying the thread stops it and waits for it.
MC_HARNESS(destroy, .preemptions = 5, .thorough_preemptions = 8) {
  absl::Status status;
  {
    std::jthread const t = MakeStoppableThread([&] {
      status = Forever(1);
      mc::Log(kDone);
    });
  }
  mc::Check(Count(kDone) == 1, "destroyed before the end");
  mc::Check(status.code() == absl::StatusCode::kCancelled, "cancelled");
}

// Replacing the thread too, and the new one isn't stopped.
MC_HARNESS(replace, .preemptions = 4, .thorough_preemptions = 6) {
  {
    std::jthread t = MakeStoppableThread([&] { Forever(1).IgnoreError(); });
    absl::Status status = absl::UnknownError("");
    t = std::jthread();
    t = MakeStoppableThread([&] { status = Work(2, 2); });
    t.join();
    mc::Check(status.ok(), "the new thread was stopped");
  }
}

// Stopping a thread doesn't affect another one, nor a thread that it creates,
// nor the caller.
MC_HARNESS(independent, .preemptions = 3, .thorough_preemptions = 4) {
  absl::Status other_status = absl::UnknownError("");
  absl::Status inner_status = absl::UnknownError("");
  absl::Status plain_status = absl::UnknownError("");
  {
    std::jthread other =
        MakeStoppableThread([&] { other_status = Work(2, 2); });
    {
      std::jthread t = MakeStoppableThread([&] {
        std::jthread inner =
            MakeStoppableThread([&] { inner_status = Work(3, 1); });
        inner.join();
        std::thread plain([&] { plain_status = Work(4, 1); });
        plain.join();
        Forever(1).IgnoreError();
      });
    }
    other.join();
  }
  mc::Check(other_status.ok(), "another thread was stopped");
  mc::Check(inner_status.ok(), "an inner thread was stopped");
  mc::Check(plain_status.ok(), "a plain thread was stopped");
  auto const self = []() -> absl::Status {
    RETURN_IF_STOPPED;
    return absl::OkStatus();
  };
  mc::Check(self().ok(), "the main thread was stopped");
}
