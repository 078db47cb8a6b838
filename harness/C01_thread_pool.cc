// C01, C02: ThreadPool.
#include <chrono>
#include <future>
#include <thread>

#include "base/thread_pool.hpp"
#include "harness/mc_util.h"

using principia::base::_thread_pool::ThreadPool;
using namespace mcu;

namespace {
enum { kStart = 1, kEnd = 2, kGo = 3, kDestroyed = 4, kDestroying = 5 };

int Job(int const i) {
  mc::Log(kStart, i);
  mc::Point("job");
  mc::Log(kEnd, i);
  return 100 + i;
}

void CheckExecutions(int const n, int const threads) {
  for (int i = 0; i < n; ++i) {
    mc::Check(Count(kStart, i) <= 1, "a function was executed twice");
    mc::Check(Count(kStart, i) == Count(kEnd, i),
              "a function was still executing");
  }
  mc::Check(MaxConcurrency(kStart, kEnd) <= threads,
            "more functions executing than there are threads");
}

void CheckFifo() {
  int last = -1;
  for (int i = 0; i < mc::LogSize(); ++i) {
    auto const e = mc::LogAt(i);
    if (e.tag == kStart) {
      mc::Check(e.a > last, "functions executed out of order");
      last = e.a;
    }
  }
}
}  // namespace

#if defined(ADD)
// One thread: first in, first out, each exactly once, the results where they
// belong.
MC_HARNESS(fifo, .preemptions = 5, .thorough_preemptions = 7) {
  {
    ThreadPool<int> pool(1);
    std::future<int> f[3];
    for (int i = 0; i < 3; ++i) {
      f[i] = pool.Add([i] { return Job(i); });
    }
    for (int i = 2; i >= 0; --i) {
      mc::Check(f[i].valid(), "invalid future");
      mc::Check(f[i].get() == 100 + i, "the wrong result");
      mc::Check(Logged(kEnd, i), "future ready before the end of the function");
    }
  }
  CheckExecutions(3, 1);
  CheckFifo();
  mc::Observe(Trace());
}

// Two functions that can only complete if they execute at the same time.
MC_HARNESS(parallel, .preemptions = 3, .thorough_preemptions = 4) {
  {
    ThreadPool<int> pool(2);
    auto f = pool.Add([] {
      mc::Log(kStart, 0);
      Await(kStart, 1);
      mc::Log(kEnd, 0);
      return 10;
    });
    auto g = pool.Add([] {
      mc::Log(kStart, 1);
      Await(kStart, 0);
      mc::Log(kEnd, 1);
      return 11;
    });
    mc::Check(f.get() == 10, "f");
    mc::Check(g.get() == 11, "g");
  }
  CheckExecutions(2, 2);
  mc::Observe(Trace());
}

// More functions than threads.
MC_HARNESS(crowded, .preemptions = 2, .thorough_preemptions = 3) {
  {
    ThreadPool<int> pool(2);
    std::future<int> f[4];
    for (int i = 0; i < 4; ++i) {
      f[i] = pool.Add([i] { return Job(i); });
    }
    for (int i = 0; i < 4; ++i) {
      mc::Check(f[i].get() == 100 + i, "the wrong result");
    }
  }
  CheckExecutions(4, 2);
  mc::Observe(Trace());
}

// Two clients, functions without a result, and a function that adds another.
MC_HARNESS(clients, .preemptions = 1, .thorough_preemptions = 2) {
  {
    ThreadPool<void> pool(2);
    int r[3] = {0, 0, 0};
    std::thread other([&] {
      auto f = pool.Add([&] { r[0] = Job(0); });
      f.get();
      mc::Check(r[0] == 100, "r[0]");
    });
    std::future<void> inner;
    auto g = pool.Add([&] {
      r[1] = Job(1);
      inner = pool.Add([&] { r[2] = Job(2); });
    });
    g.get();
    mc::Check(r[1] == 101, "r[1]");
    inner.get();
    mc::Check(r[2] == 102, "r[2]");
    other.join();
  }
  CheckExecutions(3, 2);
  mc::Observe(Trace());
}

// The pool is destroyed with functions executing and functions queued.
MC_HARNESS(shutdown, .preemptions = 2, .thorough_preemptions = 4) {
  std::future<int> f[3];
  {
    ThreadPool<int> pool(2);
    for (int i = 0; i < 3; ++i) {
      f[i] = pool.Add([i] { return Job(i); });
    }
    if (mc::Choose(2) == 1) {
      mc::Check(f[0].get() == 100, "the wrong result");
    }
    mc::Log(kDestroying);
  }
  mc::Log(kDestroyed);
  int const executed = Count(kStart);
  std::string outcome;
  for (int i = 0; i < 3; ++i) {
    if (!f[i].valid()) {
      outcome += 'g';
      continue;
    }
    mc::Check(f[i].wait_for(std::chrono::seconds(0)) ==
                  std::future_status::ready,
              "a future that will never be ready");
    try {
      mc::Check(f[i].get() == 100 + i, "the wrong result");
      mc::Check(Count(kEnd, i) == 1, "a result from nowhere");
      outcome += 'v';
    } catch (std::future_error const& e) {
      mc::Check(Count(kStart, i) == 0, "a result was lost");
      outcome += 'b';
    }
  }
  CheckExecutions(3, 2);
  mc::Check(IndexOf(kDestroyed) == mc::LogSize() - 1,
            "a function executed after the pool was destroyed");
  mc::Observe(outcome + std::to_string(executed));
}

#else

// A pool with a busy thread doesn't accept a call that it would have to queue.
MC_HARNESS(busy, .preemptions = 4, .thorough_preemptions = 6) {
  {
    ThreadPool<int> pool(1);
    auto f = pool.Add([] {
      mc::Log(kStart, 0);
      Await(kGo);
      mc::Log(kEnd, 0);
      return 10;
    });
    // Whether the function is queued or executing, there is no idle thread.
    if (mc::Choose(2) == 1) {
      Await(kStart, 0);
    }
    auto const g = pool.TryAdd([] { return 11; });
    mc::Check(!g.has_value(), "accepted a call with no idle thread");
    auto const t0 = mc::NowNs();
    mc::Check(!pool.WaitUntilIdleFor(absl::Milliseconds(10)),
              "idle with no idle thread");
    mc::Check(mc::NowNs() - t0 >= 10'000'000, "didn't wait long enough");
    mc::Log(kGo);
    mc::Check(f.get() == 10, "f");
    auto const t1 = mc::NowNs();
    bool const idle = pool.WaitUntilIdleFor(absl::Seconds(100));
    mc::Check(idle || mc::NowNs() - t1 >= 100'000'000'000,
              "gave up before the end of the duration");
    // Nothing prevents the thread from becoming idle.
    mc::Check(pool.WaitUntilIdleFor(absl::InfiniteDuration()), "never idle");
    auto h = pool.TryAdd([] { return 12; });
    mc::Check(h.has_value(), "TryAdd failed with an idle thread");
    mc::Check(h->get() == 12, "h");
    mc::Observe(idle ? "idle" : "timeout");
  }
}

// A waiter is released when a thread becomes idle, by another client's call
// completing.
MC_HARNESS(released, .preemptions = 4, .thorough_preemptions = 5) {
  {
    ThreadPool<void> pool(1);
    auto f = pool.Add([] { mc::Log(kStart, 0); Await(kGo); mc::Log(kEnd, 0); });
    std::thread waiter([&] {
      mc::Check(pool.WaitUntilIdleFor(absl::InfiniteDuration()),
                "infinite wait returned false");
      mc::Check(Logged(kEnd, 0), "idle while the only thread is executing");
    });
    mc::Log(kGo);
    waiter.join();
    f.get();
  }
}

// Two clients compete for the idle thread: an accepted call never waits for the
// completion of another.
MC_HARNESS(compete, .preemptions = 2, .thorough_preemptions = 3) {
  int accepted = 0;
  {
    ThreadPool<void> pool(2);
    auto f = pool.Add([] {
      mc::Log(kStart, 0);
      Await(kGo);
      mc::Log(kEnd, 0);
    });
    std::optional<std::future<void>> g[2];
    auto const client = [&](int const i) {
      g[i] = pool.TryAdd([i] {
        mc::Log(kStart, i + 1);
        Await(kGo);
        mc::Log(kEnd, i + 1);
      });
    };
    std::thread other([&] { client(1); });
    client(0);
    other.join();
    accepted = g[0].has_value() + g[1].has_value();
    mc::Check(accepted == 1, accepted == 0
                                 ? "both clients refused despite an idle thread"
                                 : "accepted a call that cannot start");
    // It must be able to start while the first call is not finished.
    Await(kStart, g[0].has_value() ? 1 : 2);
    Await(kStart, 0);
    mc::Log(kGo);
    f.get();
    for (auto& x : g) {
      if (x.has_value()) { x->get(); }
    }
    mc::Observe(g[0].has_value() ? "0" : "1");
  }
  CheckExecutions(3, 2);
}

// With two threads, two calls are accepted at once and a third isn't.
MC_HARNESS(fill, .preemptions = 2, .thorough_preemptions = 4) {
  {
    ThreadPool<int> pool(2);
    std::optional<std::future<int>> g[3];
    for (int i = 0; i < 3; ++i) {
      g[i] = pool.TryAdd([i] { mc::Log(kStart, i); Await(kGo); return i; });
    }
    mc::Check(g[0].has_value() && g[1].has_value(), "refused an idle thread");
    mc::Check(!g[2].has_value(), "accepted with no idle thread");
    Await(kStart, 0);
    Await(kStart, 1);
    mc::Log(kGo);
    mc::Check(g[0]->get() == 0 && g[1]->get() == 1, "results");
  }
}

// Calls are refused without waiting, and waits end, when the pool is crowded.
MC_HARNESS(crowded, .preemptions = 4, .thorough_preemptions = 6) {
  {
    ThreadPool<int> pool(1);
    auto f = pool.Add([] { Await(kGo); return 0; });
    auto g = pool.Add([] { return 1; });
    mc::Check(!pool.TryAdd([] { return 2; }).has_value(), "accepted");
    mc::Check(!pool.WaitUntilIdleFor(absl::Milliseconds(1)), "idle");
    mc::Log(kGo);
    f.get();
    mc::Check(g.get() == 1, "g");
    mc::Check(pool.WaitUntilIdleFor(absl::InfiniteDuration()), "idle");
  }
}
#endif
