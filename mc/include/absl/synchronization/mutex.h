// Shadows Abseil's header: the same interface, under the control of the model
// checker.
#pragma once

#include <cstdint>
#include <functional>
#include <memory>

#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
#include "mc/mc.h"

namespace absl {

namespace mc_internal {
inline std::int64_t Deadline(absl::Duration const d) {
  if (d == absl::InfiniteDuration()) {
    return ::mc::internal::kNever;
  }
  std::int64_t const ns = absl::ToInt64Nanoseconds(d);
  return ::mc::NowNs() + (ns < 0 ? 0 : ns);
}
inline std::int64_t Deadline(absl::Time const t) {
  if (t == absl::InfiniteFuture()) {
    return ::mc::internal::kNever;
  }
  return absl::ToUnixNanos(t);
}
}  // namespace mc_internal

class Condition {
 public:
  Condition(bool (*func)(void*), void* arg)
      : f_([func, arg] { return func(arg); }) {}
  template<typename T>
  Condition(bool (*func)(T*), T* arg) : f_([func, arg] { return func(arg); }) {}
  template<typename T>
  Condition(T* object, bool (std::common_type_t<T>::* method)())
      : f_([object, method] { return (object->*method)(); }) {}
  template<typename T>
  Condition(T const* object, bool (std::common_type_t<T>::* method)() const)
      : f_([object, method] { return (object->*method)(); }) {}
  explicit Condition(bool const* cond) : f_([cond] { return *cond; }) {}
  template<typename T, typename E = decltype(
      static_cast<bool (T::*)() const>(&T::operator()))>
  explicit Condition(T const* obj) : f_([obj] { return (*obj)(); }) {}
  bool Eval() const { return f_(); }

 private:
  std::function<bool()> f_;
};

class ABSL_LOCKABLE Mutex {
 public:
  constexpr Mutex() = default;
  ~Mutex();
  Mutex(Mutex const&) = delete;
  Mutex& operator=(Mutex const&) = delete;

  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION();
  void Unlock() ABSL_UNLOCK_FUNCTION();
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true);
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION();
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION();
  void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  void lock_shared() ABSL_SHARED_LOCK_FUNCTION() { ReaderLock(); }
  void unlock_shared() ABSL_UNLOCK_FUNCTION() { ReaderUnlock(); }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK();
  void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK();
  void AssertNotHeld() const {}
  void EnableDebugLog(char const*) {}

  void Await(Condition const& cond);
  bool AwaitWithTimeout(Condition const& cond, absl::Duration timeout);
  bool AwaitWithDeadline(Condition const& cond, absl::Time deadline);
  void LockWhen(Condition const& cond) ABSL_EXCLUSIVE_LOCK_FUNCTION();
  bool LockWhenWithTimeout(Condition const& cond, absl::Duration timeout)
      ABSL_EXCLUSIVE_LOCK_FUNCTION();
  void ReaderLockWhen(Condition const& cond) ABSL_SHARED_LOCK_FUNCTION();
  bool ReaderLockWhenWithTimeout(Condition const& cond, absl::Duration timeout)
      ABSL_SHARED_LOCK_FUNCTION();

 private:
  struct Waiter;
  static bool CanLock(void*);
  static bool CanReaderLock(void*);
  static bool CanAwait(void*);
  bool LockWhenImpl(Condition const& cond, std::int64_t deadline, bool reader);
  bool AwaitImpl(Condition const& cond, std::int64_t deadline);
  void Taken(bool reader);

  int writer_ = -1;  // Thread id.
  std::uint32_t readers_ = 0;  // Bitmask of thread ids.
};

class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->Lock();
  }
  explicit MutexLock(Mutex& mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu)
      : MutexLock(&mu) {}
  MutexLock(Mutex* mu, Condition const& cond) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu)
      : mu_(mu) {
    mu_->LockWhen(cond);
  }
  MutexLock(MutexLock const&) = delete;
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { mu_->Unlock(); }

 private:
  Mutex* const mu_;
};
using WriterMutexLock = MutexLock;

class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* mu) ABSL_SHARED_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->ReaderLock();
  }
  explicit ReaderMutexLock(Mutex& mu) ABSL_SHARED_LOCK_FUNCTION(mu)
      : ReaderMutexLock(&mu) {}
  ReaderMutexLock(Mutex* mu, Condition const& cond)
      ABSL_SHARED_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->ReaderLockWhen(cond);
  }
  ReaderMutexLock(ReaderMutexLock const&) = delete;
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { mu_->ReaderUnlock(); }

 private:
  Mutex* const mu_;
};

class ABSL_SCOPED_LOCKABLE MutexLockMaybe {
 public:
  explicit MutexLockMaybe(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu)
      : mu_(mu) {
    if (mu_ != nullptr) { mu_->Lock(); }
  }
  ~MutexLockMaybe() ABSL_UNLOCK_FUNCTION() {
    if (mu_ != nullptr) { mu_->Unlock(); }
  }

 private:
  Mutex* const mu_;
};

class ABSL_SCOPED_LOCKABLE ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu)
      : mu_(mu) {
    mu_->Lock();
  }
  ~ReleasableMutexLock() ABSL_UNLOCK_FUNCTION() {
    if (mu_ != nullptr) { mu_->Unlock(); }
  }
  void Release() ABSL_UNLOCK_FUNCTION() {
    mu_->Unlock();
    mu_ = nullptr;
  }

 private:
  Mutex* mu_;
};

class CondVar {
 public:
  void Wait(Mutex* mu) { WaitImpl(mu, ::mc::internal::kNever); }
  bool WaitWithTimeout(Mutex* mu, absl::Duration timeout) {
    return WaitImpl(mu, mc_internal::Deadline(timeout));
  }
  bool WaitWithDeadline(Mutex* mu, absl::Time deadline) {
    return WaitImpl(mu, mc_internal::Deadline(deadline));
  }
  void Signal();
  void SignalAll();

 private:
  bool WaitImpl(Mutex* mu, std::int64_t deadline);
  std::uint64_t next_ = 0;     // Tickets given.
  std::uint64_t served_ = 0;   // Tickets below this one are released.
};

}  // namespace absl
