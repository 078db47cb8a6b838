// C06: PushPullCallback and PushPullExecutor.
#include <functional>
#include <memory>
#include <optional>
#include <thread>
#include <utility>

#include "base/push_pull_callback.hpp"
#include "harness/mc_util.h"

using namespace principia::base::_push_pull_callback;
using namespace mcu;

namespace {
enum { kCall = 1, kReturn = 2, kPulled = 3, kTaskDone = 4, kNoMore = 5,
       kShutdown = 6 };
}  // namespace

// The function as seen by the task is the function computed by the client: each
// call is pulled once, in order, with its arguments, and returns the result
// pushed for it.  The client then gets the result of the task.
MC_HARNESS(executor, .preemptions = 5, .thorough_preemptions = 8) {
  int const calls = mc::Choose(3);
  {
    PushPullExecutor<std::optional<int>, int, int, double> executor(
        [calls](std::function<int(int, double)> const& f)
            -> std::optional<int> {
          int sum = 0;
          for (int i = 0; i < calls; ++i) {
            mc::Log(kCall, i);
            int const r = f(i + 1, i + 0.5);
            mc::Log(kReturn, i);
            mc::Check(r == 10 * (i + 1) + 1, "the wrong result");
            sum += r;
          }
          mc::Log(kTaskDone);
          if (calls == 0) {
            return std::nullopt;
          }
          return sum;
        });
    auto& callback = executor.callback();
    int n = 0;
    for (;;) {
      int i;
      double d;
      if (!callback.Pull(i, d)) {
        break;
      }
      mc::Log(kPulled, n);
      mc::Check(n < calls, "too many calls");
      mc::Check(i == n + 1 && d == n + 0.5, "the wrong arguments");
      mc::Check(Logged(kCall, n) && !Logged(kReturn, n), "out of step");
      ++n;
      callback.Push(10 * i + 1);
    }
    mc::Check(n == calls, "a call was lost");
    mc::Check(Logged(kTaskDone), "no more calls before the end of the task");
    // And it stays that way.
    int i;
    double d;
    mc::Check(!callback.Pull(i, d), "a call after the end");
    auto const result = executor.get();
    if (calls == 0) {
      mc::Check(!result.has_value(), "result");
    } else {
      mc::Check(result.has_value() && *result == (calls == 1 ? 11 : 32),
                "the wrong result of the task");
    }
  }
  mc::Observe(Trace());
}

// Destroying the executor as soon as it has finished is safe.
MC_HARNESS(destruction, .preemptions = 6, .thorough_preemptions = 9) {
  auto executor = std::make_unique<PushPullExecutor<std::optional<int>, double, int>>(
      [](std::function<double(int)> const&) { return std::nullopt; });
  int x;
  if (mc::Choose(2) == 1) {
    mc::Check(!executor->callback().Pull(x), "a call from nowhere");
    mc::Check(!executor->get().has_value(), "result");
  }
  executor.reset();
}

// The bare callback, with the function called from a thread of ours.
MC_HARNESS(bare, .preemptions = 5, .thorough_preemptions = 8) {
  {
    PushPullCallback<double, int> callback;
    std::thread server([&] {
      auto const f = callback.ToStdFunction();
      mc::Check(f(1) == -1, "f(1)");
      mc::Check(f(2) == -2, "f(2)");
      mc::Log(kShutdown);
      callback.Shutdown();
    });
    int n = 0;
    int i;
    while (callback.Pull(i)) {
      ++n;
      mc::Check(i == n, "arguments");
      mc::Point("compute");
      callback.Push(static_cast<double>(-i));
    }
    mc::Check(n == 2, "calls");
    mc::Check(Logged(kShutdown), "before shutdown");
    server.join();
  }
}

// A move-only-ish payload: strings survive the trip.
MC_HARNESS(strings, .preemptions = 5, .thorough_preemptions = 8) {
  {
    PushPullExecutor<std::string, std::string, int, std::string> executor(
        [](std::function<std::string(int, std::string)> const& f) {
          return f(1, "a long enough string to be on the heap") + f(2, "b");
        });
    std::string s;
    int i;
    while (executor.callback().Pull(i, s)) {
      executor.callback().Push(s + "!");
    }
    mc::Check(executor.get() == "a long enough string to be on the heap!b!",
              "strings");
  }
}
