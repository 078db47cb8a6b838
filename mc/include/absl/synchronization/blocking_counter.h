#pragma once
#include "absl/synchronization/mutex.h"
namespace absl {
class BlockingCounter {
 public:
  explicit BlockingCounter(int count) : count_(count) {}
  bool DecrementCount() { MutexLock l(&mu_); return --count_ == 0; }
  void Wait() {
    MutexLock l(&mu_);
    auto const done = [this] { return count_ == 0; };
    mu_.Await(Condition(&done));
  }
 private:
  Mutex mu_;
  int count_;
};
}  // namespace absl
