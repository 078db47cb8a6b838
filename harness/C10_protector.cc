// C10: Protector, Clientele.
#include <thread>

#include "geometry/instant.hpp"
#include "harness/mc_util.h"
#include "physics/protector.hpp"
#include "quantities/si.hpp"

using namespace principia::geometry::_instant;
using namespace principia::physics::_protector;
using namespace principia::quantities::_si;
using namespace mcu;

namespace {
// kProtected after Protect returns, kUnprotecting before Unprotect is called:
// the protection is certainly in force in between.
enum { kProtected = 1, kUnprotecting = 2, kRun = 3, kCalled = 4, kReturned = 5 };
Instant T(int const i) { return Instant() + i * Second; }

void CheckProtection() {
  std::multiset<std::int64_t> protections;
  for (int i = 0; i < mc::LogSize(); ++i) {
    auto const e = mc::LogAt(i);
    if (e.tag == kProtected) { protections.insert(e.a); }
    if (e.tag == kUnprotecting) { protections.erase(protections.find(e.a)); }
  }
}
bool Run(Protector& p, int const t, int const id) {
  mc::Log(kCalled, id);
  bool const result = p.RunWhenUnprotected(T(t), [id] { mc::Log(kRun, id); });
  mc::Log(kReturned, id);
  if (result) {
    mc::Check(Logged(kRun, id), "returned true without running");
  }
  return result;
}
}  // namespace

// A protection, a client that wants to change the past, in every order.
MC_HARNESS(one, .preemptions = 4, .thorough_preemptions = 8) {
  Protector p;
  int const t = mc::Choose(3);  // Before, at, after the start of the protection.
  bool ran;
  {
    std::thread protecting([&] {
      p.Protect(T(1));
      mc::Log(kProtected, 1);
      mc::Point("protected");
      mc::Log(kUnprotecting, 1);
      p.Unprotect(T(1));
    });
    ran = Run(p, t, 0);
    if (t <= 1) {
      mc::Check(ran, "delayed although its range is not protected");
    } else if (ran) {
      // Called entirely under protection?
      mc::Check(!(IndexOf(kProtected) >= 0 &&
                  IndexOf(kProtected) < IndexOf(kCalled) &&
                  (IndexOf(kUnprotecting) < 0 ||
                   IndexOf(kUnprotecting) > IndexOf(kReturned))),
                "ran although its range was protected");
    }
    protecting.join();
  }
  mc::Check(Count(kRun) == 1, "not run exactly once");
  if (!ran) {
    mc::Check(IndexOf(kRun) > IndexOf(kUnprotecting), "ran under protection");
  }
  mc::Observe(Trace());
}

// Delayed callbacks are run by the removal of the last protection that covers
// them, and no later, in time order.
MC_HARNESS(order, .preemptions = 3, .thorough_preemptions = 5) {
  Protector p;
  p.Protect(T(1));
  p.Protect(T(3));
  p.Protect(T(1));
  {
    std::thread client([&] {
      mc::Check(!Run(p, 4, 4), "4 ran");
      mc::Check(!Run(p, 2, 2), "2 ran");
    });
    std::thread other([&] { p.Unprotect(T(1)); });
    client.join();
    other.join();
  }
  mc::Check(Count(kRun) == 0, "ran under protection");
  mc::Check(!Run(p, 3, 3), "3 ran");
  p.Unprotect(T(1));
  mc::Check(Count(kRun) == 2 && IndexOf(kRun, 2) < IndexOf(kRun, 3),
            "2 and 3, in this order, expected");
  mc::Check(Run(p, 3, 5), "5 didn't run");
  p.Unprotect(T(3));
  mc::Check(Count(kRun, 4) == 1, "4 expected");
  mc::Check(Count(kRun) == 4, "something ran twice");
}

// Two protections removed concurrently: the callback runs exactly once, and
// not before both of them are gone.
MC_HARNESS(two, .preemptions = 3, .thorough_preemptions = 5) {
  Protector p;
  p.Protect(T(1));
  p.Protect(T(2));
  mc::Check(!Run(p, 3, 0), "ran");
  {
    std::thread a([&] { mc::Log(kUnprotecting, 1); p.Unprotect(T(1)); });
    std::thread b([&] { mc::Log(kUnprotecting, 2); p.Unprotect(T(2)); });
    std::thread c([&] { Run(p, 3, 1); });
    a.join();
    b.join();
    c.join();
  }
  mc::Check(Count(kRun, 0) == 1 && Count(kRun, 1) == 1, "exactly once");
  for (int id = 0; id < 2; ++id) {
    mc::Check(IndexOf(kRun, id) > IndexOf(kUnprotecting, 1) &&
              IndexOf(kRun, id) > IndexOf(kUnprotecting, 2), "too early");
  }
  mc::Observe(Trace());
}

// Callbacks are not run under a lock: they may use the protector.
MC_HARNESS(reentrancy, .preemptions = 2, .thorough_preemptions = 4) {
  Protector p;
  p.Protect(T(1));
  bool inner = false;
  auto const callback = [&] {
    p.Protect(T(5));
    mc::Check(p.RunWhenUnprotected(T(5), [&] { inner = true; }), "inner");
    p.Unprotect(T(5));
    mc::Log(kRun);
  };
  mc::Check(!p.RunWhenUnprotected(T(2), callback), "ran");
  {
    std::thread a([&] { p.Unprotect(T(1)); });
    a.join();
  }
  mc::Check(inner && Count(kRun) == 1, "the callback was not run");
}
