// Shadows Abseil's header; see mutex.h.
#pragma once

#include "absl/synchronization/mutex.h"
#include "absl/time/time.h"

namespace absl {

class Notification {
 public:
  Notification() = default;
  explicit Notification(bool notified) : notified_(notified) {}
  Notification(Notification const&) = delete;
  Notification& operator=(Notification const&) = delete;
  ~Notification();

  bool HasBeenNotified() const;
  void WaitForNotification() const;
  bool WaitForNotificationWithTimeout(absl::Duration timeout) const;
  bool WaitForNotificationWithDeadline(absl::Time deadline) const;
  void Notify();

 private:
  bool Wait(std::int64_t deadline) const;
  bool notified_ = false;
};

}  // namespace absl
