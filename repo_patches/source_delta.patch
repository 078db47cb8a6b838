From 2e2bbc2ec4fdf512914d3dae28a6359c792c52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 01/60] fix: Bundle must not notify before all the workers are
 done

A worker which dropped the counter to zero before Join* was called but read
joining_ after it was set would notify while other workers, added in the
meantime, were still executing: JoinWithin/JoinBefore would fail to report the
missed deadline, and the last worker would notify a second time.
---
 base/bundle.cpp | 15 +++++++--------
 base/bundle.hpp |  6 +++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/base/bundle.cpp b/base/bundle.cpp
index 5bbef39..d830f9c 100644
--- a/base/bundle.cpp
+++ b/base/bundle.cpp
@@ -24,7 +24,7 @@ void Bundle::Add(Task task) {
 
 absl::Status Bundle::Join() {
   joining_ = true;
-  if (number_of_active_workers_ > 0) {
+  if (--number_of_active_workers_ > 0) {
     all_done_.WaitForNotification();
   }
   JoinAll();
@@ -34,7 +34,7 @@ absl::Status Bundle::Join() {
 
 absl::Status Bundle::JoinWithin(std::chrono::steady_clock::duration Δt) {
   joining_ = true;
-  if (number_of_active_workers_ > 0 &&
+  if (--number_of_active_workers_ > 0 &&
       !all_done_.WaitForNotificationWithTimeout(absl::FromChrono(Δt))) {
     absl::MutexLock l(&status_lock_);
     status_ = absl::DeadlineExceededError("Bundle deadline exceeded");
@@ -46,7 +46,7 @@ absl::Status Bundle::JoinWithin(std::chrono::steady_clock::duration Δt) {
 
 absl::Status Bundle::JoinBefore(std::chrono::system_clock::time_point t) {
   joining_ = true;
-  if (number_of_active_workers_ > 0 &&
+  if (--number_of_active_workers_ > 0 &&
       !all_done_.WaitForNotificationWithDeadline(absl::FromChrono(t))) {
     absl::MutexLock l(&status_lock_);
     status_ = absl::DeadlineExceededError("bundle deadline exceeded");
@@ -65,13 +65,12 @@ void Bundle::Toil(Task const& task) {
     status_.Update(status);
   }
 
-  // No locking, so as to avoid contention during joining.  Note that if
-  // `joining_` is true we know that `number_of_active_workers_` cannot
-  // increase.  Reading `number_of_active_workers_` independently from the
+  // No locking, so as to avoid contention during joining.  The counter can only
+  // drop to zero once `Join*` has been called, and it cannot increase
+  // thereafter.  Reading `number_of_active_workers_` independently from the
   // decrement would be incorrect as we must ensure that exactly one thread sees
   // that counter dropping to zero.
-  int const number_of_active_workers = --number_of_active_workers_;
-  if (joining_ && number_of_active_workers == 0) {
+  if (--number_of_active_workers_ == 0) {
     all_done_.Notify();
   }
 }
diff --git a/base/bundle.hpp b/base/bundle.hpp
index bef2bff..d523c4e 100644
--- a/base/bundle.hpp
+++ b/base/bundle.hpp
@@ -56,9 +56,9 @@ class Bundle final {
   std::atomic_bool joining_ = false;
   absl::Notification all_done_;
 
-  // The number of workers currently executing.  Can only be incremented when
-  // `joining_` is false.
-  std::atomic_int number_of_active_workers_ = 0;
+  // The number of workers currently executing, plus one until `Join*` has been
+  // called.  Can only be incremented when `joining_` is false.
+  std::atomic_int number_of_active_workers_ = 1;
   std::list<std::thread> workers_ ABSL_GUARDED_BY(lock_);
 
   static_assert(std::atomic_bool::is_always_lock_free, "bool not lock-free");
-- 
2.43.0


From 7aba25c2fb2d07fef176943b1c6c6c6d20df6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 02/60] fix: RecurringThread must stop its thread before
 destroying its state

The thread was only stopped by the destructor of the base class, at a point
where the action, the channels and their lock had already been destroyed and
where RunAction had become pure virtual, even though it could still be running.
---
 base/recurring_thread.hpp      |  6 ++++++
 base/recurring_thread_body.hpp | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/base/recurring_thread.hpp b/base/recurring_thread.hpp
index 2ccc6c4..848e9fa 100644
--- a/base/recurring_thread.hpp
+++ b/base/recurring_thread.hpp
@@ -65,6 +65,9 @@ class RecurringThread : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread before destroying the state that it uses.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
@@ -95,6 +98,9 @@ class RecurringThread<Input, void> : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread before destroying the state that it uses.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
diff --git a/base/recurring_thread_body.hpp b/base/recurring_thread_body.hpp
index e05b98b..fbd4bac 100644
--- a/base/recurring_thread_body.hpp
+++ b/base/recurring_thread_body.hpp
@@ -58,6 +58,11 @@ RecurringThread<Input, Output>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input, typename Output>
+RecurringThread<Input, Output>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input, typename Output>
 void RecurringThread<Input, Output>::Put(Input input) {
   absl::MutexLock l(&input_output_lock_);
@@ -105,6 +110,11 @@ RecurringThread<Input, void>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input>
+RecurringThread<Input, void>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input>
 void RecurringThread<Input, void>::Put(Input input) {
   absl::MutexLock l(&input_lock_);
-- 
2.43.0


From 16f084cedd3569cf347819f59b2ebae79462e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 03/60] fix: DelegatingArrayInputStream must not block after
 the end of its input

Protobuf calls Next again after it has returned false when it parses an empty
message, so deserializing such a message would hang.
---
 base/push_deserializer.hpp      |  1 +
 base/push_deserializer_body.hpp | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/push_deserializer.hpp b/base/push_deserializer.hpp
index 4c19389..4f718f1 100644
--- a/base/push_deserializer.hpp
+++ b/base/push_deserializer.hpp
@@ -49,6 +49,7 @@ class DelegatingArrayInputStream
   Array<std::uint8_t> bytes_;
   std::function<Array<std::uint8_t>()> on_empty_;
 
+  bool at_end_ = false;  // Set once `on_empty_` has returned an empty array.
   std::int64_t byte_count_ = 0;
   std::int64_t position_ = 0;
   std::int64_t last_returned_size_ = 0;  // How many bytes we returned last time
diff --git a/base/push_deserializer_body.hpp b/base/push_deserializer_body.hpp
index 747a916..87185f2 100644
--- a/base/push_deserializer_body.hpp
+++ b/base/push_deserializer_body.hpp
@@ -26,12 +26,16 @@ inline DelegatingArrayInputStream::DelegatingArrayInputStream(
 inline bool DelegatingArrayInputStream::Next(void const** const data,
                                              int* const size) {
   if (position_ == bytes_.size) {
+    last_returned_size_ = 0;  // Don't let caller back up.
+    if (at_end_) {
+      return false;
+    }
     // We're at the end of the array.  Obtain a new one.
     bytes_ = on_empty_();
     position_ = 0;
-    last_returned_size_ = 0;  // Don't let caller back up.
     if (bytes_.size == 0) {
       // At end of input data.
+      at_end_ = true;
       return false;
     }
   }
@@ -61,11 +65,16 @@ inline bool DelegatingArrayInputStream::Skip(int const count) {
   while (remaining > bytes_.size - position_) {
     byte_count_ += bytes_.size - position_;
     remaining -= bytes_.size - position_;
+    position_ = bytes_.size;
+    if (at_end_) {
+      return false;
+    }
     // We're at the end of the array.  Obtain a new one.
     bytes_ = on_empty_();
     position_ = 0;
     if (bytes_.size == 0) {
       // At end of input data.
+      at_end_ = true;
       return false;
     }
   }
-- 
2.43.0


From 2c0dd1a727bb5aeb9f6d85ceec954b5420697e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 04/60] fix: Clientele::first must not return a reference to an
 element that may be erased

The reference was used after the lock was released, at a time when the client
could be leaving on another thread.
---
 physics/clientele.hpp      | 5 +++--
 physics/clientele_body.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/physics/clientele.hpp b/physics/clientele.hpp
index c1520c0..ae499c9 100644
--- a/physics/clientele.hpp
+++ b/physics/clientele.hpp
@@ -25,8 +25,9 @@ class Clientele {
   void Join(Key const& key);
   void Leave(Key const& key);
 
-  // Returns the smallest key of all clients currently in this object.
-  Key const& first() const;
+  // Returns the smallest key of all clients currently in this object.  Returns
+  // by value because the client may leave at any time.
+  Key first() const;
 
  private:
   Key const default_key_;
diff --git a/physics/clientele_body.hpp b/physics/clientele_body.hpp
index 5917bfb..bef3e18 100644
--- a/physics/clientele_body.hpp
+++ b/physics/clientele_body.hpp
@@ -26,7 +26,7 @@ void Clientele<Key>::Leave(Key const& key) {
 }
 
 template<typename Key>
-Key const& Clientele<Key>::first() const {
+Key Clientele<Key>::first() const {
   absl::MutexLock l(&lock_);
   if (auto const it = clients_.begin(); it == clients_.end()) {
     return default_key_;
-- 
2.43.0


From 1d631ab1730db82371211fa55e7399f97d70b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 05/60] fix: Checkpointer must not expose incomplete
 checkpoints or use stale iterators

The iterators into the map of checkpoints were used after releasing the lock,
and the checkpoint being written was visible to the readers and to
serialization.
---
 physics/checkpointer.hpp      |  4 ++++
 physics/checkpointer_body.hpp | 31 +++++++++++++++++++++----------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/physics/checkpointer.hpp b/physics/checkpointer.hpp
index a77d3ec..a06e6bf 100644
--- a/physics/checkpointer.hpp
+++ b/physics/checkpointer.hpp
@@ -158,6 +158,10 @@ class Checkpointer {
   // key is the source of truth.
   CheckpointsByTime checkpoints_;
 
+  // The times of the checkpoints that are currently being written.  They are
+  // not in `checkpoints_` yet.
+  absl::btree_set<Instant> pending_checkpoints_;
+
   // The checkpoints held in the `checkpoints_` map are all allocated in this
   // arena.
   google::protobuf::Arena arena_;
diff --git a/physics/checkpointer_body.hpp b/physics/checkpointer_body.hpp
index 1635eb9..4fc73a2 100644
--- a/physics/checkpointer_body.hpp
+++ b/physics/checkpointer_body.hpp
@@ -161,8 +161,15 @@ bool Checkpointer<Message>::WriteToCheckpointIfNeeded(
     Instant const& t,
     Time const& max_time_between_checkpoints) {
   absl::MutexLock l(&lock_);
-  if (checkpoints_.empty() ||
-      max_time_between_checkpoints < t - checkpoints_.crbegin()->first) {
+  // A checkpoint that is being written on another thread counts.
+  Instant newest = InfinitePast;
+  if (!checkpoints_.empty()) {
+    newest = checkpoints_.crbegin()->first;
+  }
+  if (!pending_checkpoints_.empty()) {
+    newest = std::max(newest, *pending_checkpoints_.crbegin());
+  }
+  if (newest == InfinitePast || max_time_between_checkpoints < t - newest) {
     WriteToCheckpointLocked(t);
     return true;
   }
@@ -215,15 +222,16 @@ template<typename Message>
 absl::Status Checkpointer<Message>::ReadFromCheckpointAt(
     Instant const& t,
     Reader const& reader) const {
-  typename CheckpointsByTime::const_iterator it;
+  typename Message::Checkpoint const* checkpoint = nullptr;
   {
     absl::ReaderMutexLock l(&lock_);
-    it = checkpoints_.find(t);
+    auto const it = checkpoints_.find(t);
     if (it == checkpoints_.end()) {
       return absl::NotFoundError("No checkpoint found");
     }
+    checkpoint = it->second.get();
   }
-  return reader(*it->second);
+  return reader(*checkpoint);
 }
 
 template<typename Message>
@@ -289,14 +297,17 @@ template<typename Message>
 void Checkpointer<Message>::WriteToCheckpointLocked(Instant const& t) {
   lock_.AssertHeld();
   CHECK(!checkpoints_.contains(t)) << t;
-  auto const it = checkpoints_.emplace_hint(
-      checkpoints_.end(),
-      t,
+  CHECK(pending_checkpoints_.insert(t).second) << t;
+  auto checkpoint =
       google::protobuf::Arena::MakeUnique<typename Message::Checkpoint>(
-          &arena_));
+          &arena_);
+  Writer const writer = writer_;
   lock_.Unlock();
-  writer_(it->second.get());
+  writer(checkpoint.get());
   lock_.Lock();
+  // Only make the checkpoint visible once it has been completely written.
+  pending_checkpoints_.erase(t);
+  checkpoints_.emplace(t, std::move(checkpoint));
 }
 
 }  // namespace internal
-- 
2.43.0


From 1cadd2c876af5e8c3f507818b668af64c88f4397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 06/60] fix: hexadecimal decoding must not use negative indices
 for non-ASCII characters

---
 base/hexadecimal_body.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/hexadecimal_body.hpp b/base/hexadecimal_body.hpp
index 47bd0cc..e75caf0 100644
--- a/base/hexadecimal_body.hpp
+++ b/base/hexadecimal_body.hpp
@@ -107,8 +107,11 @@ void HexadecimalEncoder<null_terminated>::Decode(Array<char const> input,
   for (char const* const input_end = input.data + input.size;
        input.data != input_end;
        input.data += 2, ++output.data) {
-    *output.data = (hexadecimal_digits_to_nibble[*input.data] << 4) |
-                   hexadecimal_digits_to_nibble[*(input.data + 1)];
+    // Beware, `char` may be signed.
+    *output.data =
+        (hexadecimal_digits_to_nibble[static_cast<std::uint8_t>(
+             input.data[0])] << 4) |
+        hexadecimal_digits_to_nibble[static_cast<std::uint8_t>(input.data[1])];
   }
 }
 
-- 
2.43.0


From 79b6204a255d611cc693a4d2d49f1baea2909973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 07/60] fix: hexadecimal encoding must not write the null over
 input that wasn't read yet

---
 base/hexadecimal_body.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/hexadecimal_body.hpp b/base/hexadecimal_body.hpp
index e75caf0..f4c366d 100644
--- a/base/hexadecimal_body.hpp
+++ b/base/hexadecimal_body.hpp
@@ -56,17 +56,20 @@ void HexadecimalEncoder<null_terminated>::Encode(
         static_cast<void*>(&output.data[input.size << 1]) <= input.data)
       << "bad overlap";
   CHECK_GE(output.size, EncodedLength(input)) << "output too small";
+  [[maybe_unused]] char* const output_end = output.data + (input.size << 1);
   // We want the result to start at `output.data[0]`.
   output.data += ((input.size - 1) << 1);
-  if constexpr (null_terminated) {
-    output.data[2] = 0;
-  }
   input.data += input.size - 1;
   for (std::uint8_t const* const input_rend = input.data - input.size;
        input.data != input_rend;
        --input.data, output.data -= 2) {
     std::memcpy(output.data, &byte_to_hexadecimal_digits[*input.data << 1], 2);
   }
+  // Only write the null once the input has been read: it may start immediately
+  // after the encoded form.
+  if constexpr (null_terminated) {
+    *output_end = 0;
+  }
 }
 
 template<bool null_terminated>
-- 
2.43.0


From ef812472cacc8ba87842c0048cb310ab2e1ff4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 08/60] fix: the comparison of arrays must compare all the
 bytes of the elements

---
 base/array_body.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/array_body.hpp b/base/array_body.hpp
index 16f4ff9..fe9b50d 100644
--- a/base/array_body.hpp
+++ b/base/array_body.hpp
@@ -182,12 +182,15 @@ BoundedArray<Element, max_size>::size() const {
 
 template<std::integral LeftElement, std::integral RightElement>
 bool operator==(Array<LeftElement> left, Array<RightElement> right) {
+  static_assert(sizeof(LeftElement) == sizeof(RightElement),
+                "Cannot compare elements of different sizes");
   if (left.size != right.size) {
     return false;
   }
   return std::memcmp(left.data,
                      right.data,
-                     static_cast<std::size_t>(right.size)) == 0;
+                     static_cast<std::size_t>(right.size) *
+                         sizeof(RightElement)) == 0;
 }
 
 template<std::integral LeftElement, std::integral RightElement>
-- 
2.43.0


From 4ea6662c628cc1e7f0e216bcd385b03da6965fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:04 +0000
Subject: [PATCH 09/60] fix: the cube root of a negative number must be
 correctly rounded too

---
 numerics/cbrt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerics/cbrt.cpp b/numerics/cbrt.cpp
index d648e9b..8990277 100644
--- a/numerics/cbrt.cpp
+++ b/numerics/cbrt.cpp
@@ -115,7 +115,8 @@ bool CorrectionPossiblyNeeded(double const r₀,
   // very close to a tie (for r̃ ≠ r₀) or to a representable number (for r̃ = r₀).
   // On the other hand, it is hard to predict whether r̃ = r₀, i.e., whether r is
   // closer to a representable number than to a tie.
-  return std::abs(0.5 * (r̃ - r₀) - r₁) <= τ * r₀ && r̃ != r₀;
+  // Note that r₀ has the sign of y.
+  return std::abs(0.5 * (r̃ - r₀) - r₁) <= τ * std::abs(r₀) && r̃ != r₀;
 }
 
 template<FMAPresence fma_presence>
-- 
2.43.0


From a1148b8b98d2c9c0873c8eaf50ab0eebdb51d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 10/60] fix: the cube root without FMA must not be misrounded
 by an underflow

---
 numerics/cbrt.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/numerics/cbrt.cpp b/numerics/cbrt.cpp
index 8990277..a1ae627 100644
--- a/numerics/cbrt.cpp
+++ b/numerics/cbrt.cpp
@@ -177,18 +177,18 @@ static const __m128d round_toward_zero_26_bits =
 
 namespace method_3²ᴄZ5¹ {
 
-// No overflow or underflow occurs in intermediate computations for
-// y ∈ [y₁, y₂].  The limiting expression is the denominator of step 4, wherein
-// the 8th power of x, which is approximately the 8th power of ∛y, appears. The
-// the 9th power of ∛y, i.e., cube of y, does not overflow for y ∈ [y₁, y₂].
+// No overflow occurs in intermediate computations for y ∈ [y₁, y₂].  The
+// limiting expression is the numerator of step 4, which is approximately 2⁻¹⁷
+// times the 9th power of ∛y, i.e., the cube of y.  It may underflow, but y₁ is
+// such that the resulting error on Δ, at most 2⁻⁸⁷ x, is negligible.
 // NOTE(egg): the σs do not rescale enough to put the least normal or greatest
 // finite magnitudes inside the non-rescaling range; for very small and very
 // large values, rescaling occurs twice.
-constexpr double y₁ = 0x1p-340;
-constexpr double σ₁ = 0x1p-227;
+constexpr double y₁ = 0x1p-331;
+constexpr double σ₁ = 0x1p-224;
 constexpr double σ₁⁻³ = 1 / (σ₁ * σ₁ * σ₁);
 constexpr double y₂ = 0x1p341;
-constexpr double σ₂ = 0x1p227;
+constexpr double σ₂ = 0x1p224;
 constexpr double σ₂⁻³ = 1 / (σ₂ * σ₂ * σ₂);
 static_assert(σ₁⁻³ * y₁ == y₂);
 static_assert(σ₂⁻³ * y₂ == y₁);
-- 
2.43.0


From 62e5f54a32a0e6e027ffa2df322635f4cc6234c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:38 +0000
Subject: [PATCH 11/60] =?UTF-8?q?fix:=20the=20reduction=20of=20large=20ang?=
 =?UTF-8?q?les=20must=20not=20read=20past=20the=20end=20of=20the=20chunks?=
 =?UTF-8?q?=20of=204/=CF=80?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 mathematica/payne_hanek.wl         | 26 +++++---
 numerics/angle_reduction_body.hpp  |  7 ++-
 numerics/payne_hanek.mathematica.h | 95 ++++++++++++++++--------------
 3 files changed, 74 insertions(+), 54 deletions(-)

diff --git a/mathematica/payne_hanek.wl b/mathematica/payne_hanek.wl
index 4f80cfe..bfbe2db 100644
--- a/mathematica/payne_hanek.wl
+++ b/mathematica/payne_hanek.wl
@@ -55,7 +55,19 @@
 
 
 (* ::Input:: *)
-(*smallestExponent=2^(binary64[[2]]-1)+binary64[[1]]-3*)
+(*precision=90*)
+
+
+(* ::Input:: *)
+(*scaleExponent=128*)
+
+
+(* ::Text:: *)
+(*The bits that are needed to reduce the largest floating-point numbers.*)
+
+
+(* ::Input:: *)
+(*smallestExponent=2^(binary64[[2]]-1)+binary64[[1]]+precision*)
 
 
 (* ::Input:: *)
@@ -81,12 +93,8 @@
 (*N[16^^28be60d.0 2^-25]*)
 
 
-(* ::Text:: *)
-(*Note that the last chunk is not exactly representable because of progressive underflow.*)
-
-
 (* ::Input:: *)
-(*chunkStrings=MapIndexed[hexFloatLiteral[#1 [[1]],#1[[2]]]&,chunks]*)
+(*chunkStrings=MapIndexed[hexFloatLiteral[#1 [[1]],#1[[2]]+scaleExponent]&,chunks]*)
 
 
 (* ::Input:: *)
@@ -104,7 +112,10 @@
 (**)
 (*constexpr std::int64_t PayneHanekBitsPerChunk = "<>ToString[bitsPerChunk]<>";*)
 (**)
-(*// Chunks of "<>ToString[bitsPerChunk]<>" bits of 4/\[Pi], up to exponent "<>ToString[-smallestExponent]<>".*)
+(*// The chunks are multiplied by 2^"<>ToString[scaleExponent]<>" to stay clear of underflow.*)
+(*constexpr std::int64_t PayneHanekScaleExponent = "<>ToString[scaleExponent]<>";*)
+(**)
+(*// Chunks of "<>ToString[bitsPerChunk]<>" bits of 4/\[Pi], up to exponent "<>ToString[chunks[[-1,2]]]<>".*)
 (*constexpr std::array<double, "<>ToString[Length[chunkStrings]]<>"> PayneHanekChunks{\n    "<>*)
 (*StringRiffle[chunkStrings,",\n    "]*)
 (*<>"};*)
@@ -113,6 +124,7 @@
 (**)
 (*using internal::PayneHanekBitsPerChunk;*)
 (*using internal::PayneHanekChunks;*)
+(*using internal::PayneHanekScaleExponent;*)
 (**)
 (*}  // namespace _payne_hanek*)
 (*}  // namespace numerics*)
diff --git a/numerics/angle_reduction_body.hpp b/numerics/angle_reduction_body.hpp
index b066d29..dc21dca 100644
--- a/numerics/angle_reduction_body.hpp
+++ b/numerics/angle_reduction_body.hpp
@@ -84,13 +84,14 @@ void PayneHanekReduction(Angle const& x,
   // The bits of the chunks must be scaled up by 2^(n + e + 1 + p) to make
   // `Medium(e, p)` an integer.  The computation of `h` then involves a
   // multiplication by 2^(-2n -p).  All together, this results in the scaling
-  // below for the chunk.
-  double const scale = std::scalbn(1.0, e - n + 1);
+  // below for the chunk.  Note that the chunks are themselves scaled up.
+  double const scale = std::scalbn(1.0, e - n + 1 - PayneHanekScaleExponent);
 
   // The most significant chunk has extra bits that we don't need because they
   // are part of `Left(e, p)`.  Drop them: the first bit that is preserved here
   // is the one numbered n - e + 1.
-  double const medium_first_mod = std::scalbn(1.0, n - e + 2);
+  double const medium_first_mod =
+      std::scalbn(1.0, n - e + 2 + PayneHanekScaleExponent);
 
   DoublePrecision<double> h;
   for (std::int64_t i = medium_last; i >= medium_first; --i) {
diff --git a/numerics/payne_hanek.mathematica.h b/numerics/payne_hanek.mathematica.h
index 1006966..ea47146 100644
--- a/numerics/payne_hanek.mathematica.h
+++ b/numerics/payne_hanek.mathematica.h
@@ -10,55 +10,62 @@ namespace internal {
 
 constexpr std::int64_t PayneHanekBitsPerChunk = 26;
 
-// Chunks of 26 bits of 4/π, up to exponent -1074.
-constexpr std::array<double, 42> PayneHanekChunks{
-    0x28b'e60d.0p-25,
-    0x2e4'e441.0p-51,
-    0x14a'7f09.0p-77,
-    0x357'd1f5.0p-103,
-    0x0d3'7703.0p-129,
-    0x1b6'2959.0p-155,
-    0x24f'10e4.0p-181,
-    0x041'fe51.0p-207,
-    0x18e'af7a.0p-233,
-    0x3bc'561b.0p-259,
-    0x1c9'1b8e.0p-285,
-    0x242'4dd2.0p-311,
-    0x380'1924.0p-337,
-    0x2ee'a09d.0p-363,
-    0x064'873f.0p-389,
-    0x21d'eb1c.0p-415,
-    0x2c4'a69c.0p-441,
-    0x3ee'8823.0p-467,
-    0x17d'4bae.0p-493,
-    0x344'84e9.0p-519,
-    0x271'c09a.0p-545,
-    0x345'f7e4.0p-571,
-    0x04e'6475.0p-597,
-    0x239'8353.0p-623,
-    0x0e7'd272.0p-649,
-    0x045'f8bb.0p-675,
-    0x37e'4a0e.0p-701,
-    0x31f'f897.0p-727,
-    0x3ff'7816.0p-753,
-    0x180'fef2.0p-779,
-    0x3c4'62d6.0p-805,
-    0x20a'6d1f.0p-831,
-    0x1b4'd9fb.0p-857,
-    0x0f2'7cb0.0p-883,
-    0x26d'd3d1.0p-909,
-    0x23f'669e.0p-935,
-    0x17f'a8b5.0p-961,
-    0x352'7bac.0p-987,
-    0x1fa'f97c.0p-1013,
-    0x17b'3d07.0p-1039,
-    0x0e7'de29.0p-1065,
-    0x129'2ea6.0p-1091};
+// The chunks are multiplied by 2^128 to stay clear of underflow.
+constexpr std::int64_t PayneHanekScaleExponent = 128;
+
+// Chunks of 26 bits of 4/π, up to exponent -1169.
+constexpr std::array<double, 45> PayneHanekChunks{
+    0x28b'e60d.0p103,
+    0x2e4'e441.0p77,
+    0x14a'7f09.0p51,
+    0x357'd1f5.0p25,
+    0x0d3'7703.0p-1,
+    0x1b6'2959.0p-27,
+    0x24f'10e4.0p-53,
+    0x041'fe51.0p-79,
+    0x18e'af7a.0p-105,
+    0x3bc'561b.0p-131,
+    0x1c9'1b8e.0p-157,
+    0x242'4dd2.0p-183,
+    0x380'1924.0p-209,
+    0x2ee'a09d.0p-235,
+    0x064'873f.0p-261,
+    0x21d'eb1c.0p-287,
+    0x2c4'a69c.0p-313,
+    0x3ee'8823.0p-339,
+    0x17d'4bae.0p-365,
+    0x344'84e9.0p-391,
+    0x271'c09a.0p-417,
+    0x345'f7e4.0p-443,
+    0x04e'6475.0p-469,
+    0x239'8353.0p-495,
+    0x0e7'd272.0p-521,
+    0x045'f8bb.0p-547,
+    0x37e'4a0e.0p-573,
+    0x31f'f897.0p-599,
+    0x3ff'7816.0p-625,
+    0x180'fef2.0p-651,
+    0x3c4'62d6.0p-677,
+    0x20a'6d1f.0p-703,
+    0x1b4'd9fb.0p-729,
+    0x0f2'7cb0.0p-755,
+    0x26d'd3d1.0p-781,
+    0x23f'669e.0p-807,
+    0x17f'a8b5.0p-833,
+    0x352'7bac.0p-859,
+    0x1fa'f97c.0p-885,
+    0x17b'3d07.0p-911,
+    0x0e7'de29.0p-937,
+    0x129'2ea6.0p-963,
+    0x2fe'd7ec.0p-989,
+    0x11f'8d5d.0p-1015,
+    0x021'580c.0p-1041};
 
 }  // namespace internal
 
 using internal::PayneHanekBitsPerChunk;
 using internal::PayneHanekChunks;
+using internal::PayneHanekScaleExponent;
 
 }  // namespace _payne_hanek
 }  // namespace numerics
-- 
2.43.0


From 25b2ed5b98b593be6e7d73860b26cc2fb2a600f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 12/60] =?UTF-8?q?fix:=20the=20sine=20and=20cosine=20must?=
 =?UTF-8?q?=20not=20be=20misrounded=20near=20the=20multiples=20of=20=CF=80?=
 =?UTF-8?q?/2?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 numerics/sin_cos.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/numerics/sin_cos.cpp b/numerics/sin_cos.cpp
index 6702111..bab17a3 100644
--- a/numerics/sin_cos.cpp
+++ b/numerics/sin_cos.cpp
@@ -2,6 +2,7 @@
 
 #include <immintrin.h>
 
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <utility>
@@ -300,6 +301,12 @@ FORCE_INLINE void PayneHanekReduction(Argument const x,
   DoublePrecision<double> x_reduced_double{uninitialized};
   _angle_reduction::PayneHanekReduction<61>(
       x_double, x_reduced_double, quadrant);
+  // The absolute error on `x_reduced_double` is about 2⁻¹⁰⁰.  If the reduced
+  // angle is very small, its relative error is larger than what the dangerous
+  // rounding tests can detect: poison the error to take the slow path.
+  if (std::abs(x_reduced_double.value) < 0x1p-24) {
+    x_reduced_double.error = std::numeric_limits<double>::quiet_NaN();
+  }
   x_reduced.value = M128D(x_reduced_double.value);
   x_reduced.error = M128D(x_reduced_double.error);
 }
-- 
2.43.0


From db321024907d8842f9089b9c64cf4bae9fb084b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:20 +0000
Subject: [PATCH 13/60] fix: AttachSegments must not drop the map entry of a
 segment that follows a 1-point segment

---
 physics/discrete_trajectory_body.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index c10ada1..ff70dc0 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -216,11 +216,14 @@ DiscreteTrajectory<Frame>::AttachSegments(DiscreteTrajectory trajectory) {
     // and update the time-to-segment map.
     CHECK_LT(back().time, trajectory.front().time)
         << "Mismatching times when attaching segments";
-    trajectory.segments_->begin()->Prepend(back().time,
-                                           back().degrees_of_freedom);
+    auto const sit = trajectory.segments_->begin();
+    sit->Prepend(back().time, back().degrees_of_freedom);
+    // If the first segment used to have a single point, the first entry may be
+    // for a later segment, and must be preserved.
     auto const leit = trajectory.segment_by_left_endpoint_.cbegin();
-    auto const sit = leit->second;
-    trajectory.segment_by_left_endpoint_.erase(leit);
+    if (leit->second == sit) {
+      trajectory.segment_by_left_endpoint_.erase(leit);
+    }
     trajectory.segment_by_left_endpoint_.emplace(back().time, sit);
   }
 
-- 
2.43.0


From ec79e2f6e7de6e20a86e81dc4cb882100583bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:20 +0000
Subject: [PATCH 14/60] fix: ForgetBefore must not hide the segment that starts
 at the last point kept

---
 physics/discrete_trajectory_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index ff70dc0..f9c6dc8 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -342,9 +342,11 @@ void DiscreteTrajectory<Frame>::ForgetBefore(Instant const& t) {
   // just have truncated.
   segment_by_left_endpoint_.erase(segment_by_left_endpoint_.begin(),
                                   std::next(leit));
-  // It `*sit` is not empty, recreate an entry with its new left endpoint.
+  // It `*sit` is not empty, recreate an entry with its new left endpoint.  If it
+  // only has its last point left, there may already be an entry for a later
+  // segment at that time, which must be preserved.
   if (!sit->empty()) {
-    segment_by_left_endpoint_.insert_or_assign(
+    segment_by_left_endpoint_.try_emplace(
         segment_by_left_endpoint_.begin(),
         sit->front().time,
         sit);
-- 
2.43.0


From 8960fd491577ddadf7850f7fdc4ed77ef509209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:20 +0000
Subject: [PATCH 15/60] fix: detaching or splicing empty segments must not
 access their first point

---
 physics/discrete_trajectory_body.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index f9c6dc8..cb0694c 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -913,10 +913,19 @@ void DiscreteTrajectory<Frame>::AdjustAfterSplicing(
     sit->SetSelf(SegmentIterator(to.segments_.get(), sit));
   }
 
-  // Copy the time-to-segment entries on or after the time of `to_segment_begin`
-  // from `from` to `to`.  We are sure to copy all the entries we need because
-  // it includes the last segment that starts at that time.
-  auto from_leit = from.FindSegment(to_segments_begin->front().time);
+  // The leading empty segments don't have entries in the time-to-segment map.
+  auto const to_first_nonempty_segment =
+      std::find_if_not(to_segments_begin,
+                       to.segments_->end(),
+                       [](auto const& segment) { return segment.empty(); });
+  if (to_first_nonempty_segment == to.segments_->end()) {
+    return;
+  }
+
+  // Copy the time-to-segment entries on or after the time of the first nonempty
+  // segment from `from` to `to`.  We are sure to copy all the entries we need
+  // because it includes the last segment that starts at that time.
+  auto from_leit = from.FindSegment(to_first_nonempty_segment->front().time);
   for (auto leit = from_leit;
        leit != from.segment_by_left_endpoint_.end();
        ++leit) {
-- 
2.43.0


From 1bce3b3938a1fd8af8553fc80ef20dbea3b86c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 16/60] fix: the downsampling error must be restored when
 reading a trajectory segment

---
 physics/discrete_trajectory_segment_body.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index b15a8f2..f369dba 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -312,6 +312,10 @@ DiscreteTrajectorySegment<Frame>::ReadFromMessage(
     segment.downsampling_parameters_ = DownsamplingParameters::ReadFromMessage(
         message.downsampling_parameters());
   }
+  if (timeline_size > 1) {
+    segment.downsampling_error_ =
+        segment.timeline_.crbegin()->interpolation->error;
+  }
 
   return segment;
 }
-- 
2.43.0


From 9d76d18cd9b1fdf7f2f879e470f372a48c27f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 17/60] fix: merging trajectory segments must carry over the
 downsampling error

---
 physics/discrete_trajectory_segment_body.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index f369dba..1c3c633 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -496,6 +496,7 @@ void DiscreteTrajectorySegment<Frame>::Merge(
     return;
   } else if (timeline_.empty()) {
     downsampling_parameters_ = segment.downsampling_parameters_;
+    downsampling_error_ = segment.downsampling_error_;
     timeline_ = std::move(segment.timeline_);
   } else if (auto const [this_crbegin, segment_begin] =
                  std::pair{std::prev(timeline_.cend()),
@@ -515,6 +516,7 @@ void DiscreteTrajectorySegment<Frame>::Merge(
 #endif
     Instant const segment_begin_time = segment_begin->time;
     downsampling_parameters_ = segment.downsampling_parameters_;
+    downsampling_error_ = segment.downsampling_error_;
     timeline_.merge(segment.timeline_);
     // There may not be an interpolation at `segment_begin_time` (there may be
     // one if the segments have a common time, though). (Re)compute it, but
-- 
2.43.0


From 9b9fc3307e10134cf6b5e37995854f23640bbc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 18/60] fix: updating an interpolation must not use a reference
 invalidated by the extraction

---
 physics/discrete_trajectory_segment_body.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index 1c3c633..4e99033 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -590,10 +590,12 @@ void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
     typename Timeline::iterator const upper) {
   CHECK(upper != timeline_.cbegin());
   auto const lower = std::prev(upper);
-  auto const& [lower_time, lower_degrees_of_freedom] = *lower;
 
-  // This needs to be copied because the element designated by `upper` is going
-  // to be extracted from the set, which invalidates `upper`.
+  // These need to be copied because the element designated by `upper` is going
+  // to be extracted from the set, which invalidates `upper`, and may also move
+  // the element designated by `lower`.
+  auto const lower_time = lower->time;
+  auto const lower_degrees_of_freedom = lower->degrees_of_freedom;
   auto const upper_time = upper->time;
   auto const upper_degrees_of_freedom = upper->degrees_of_freedom;
 
-- 
2.43.0


From 69c3a1139ce8faf944f35e27db46f8f01db0bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 19/60] fix: Cloning a multistep instance during its startup

---
 integrators/explicit_linear_multistep_integrator.hpp   |  3 +++
 .../explicit_linear_multistep_integrator_body.hpp      |  7 +++++++
 integrators/starter.hpp                                |  8 ++++++++
 integrators/starter_body.hpp                           | 10 ++++++++++
 integrators/symmetric_linear_multistep_integrator.hpp  |  3 +++
 .../symmetric_linear_multistep_integrator_body.hpp     |  7 +++++++
 6 files changed, 38 insertions(+)

diff --git a/integrators/explicit_linear_multistep_integrator.hpp b/integrators/explicit_linear_multistep_integrator.hpp
index 68d684a..7a421fe 100644
--- a/integrators/explicit_linear_multistep_integrator.hpp
+++ b/integrators/explicit_linear_multistep_integrator.hpp
@@ -81,6 +81,9 @@ class ExplicitLinearMultistepIntegrator
              IndependentVariableDifference const& step,
              ExplicitLinearMultistepIntegrator const& integrator);
 
+    // For cloning.
+    Instance(Instance const& other);
+
     Starter starter_;
     ExplicitLinearMultistepIntegrator const& integrator_;
     friend class ExplicitLinearMultistepIntegrator;
diff --git a/integrators/explicit_linear_multistep_integrator_body.hpp b/integrators/explicit_linear_multistep_integrator_body.hpp
index 019c536..1814f50 100644
--- a/integrators/explicit_linear_multistep_integrator_body.hpp
+++ b/integrators/explicit_linear_multistep_integrator_body.hpp
@@ -176,6 +176,13 @@ ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
       starter_(integrator.startup_integrator_, startup_step_divisor, this),
       integrator_(integrator) {}
 
+template<typename Method, typename ODE_>
+ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 ExplicitLinearMultistepIntegrator<Method, ODE_>::
 ExplicitLinearMultistepIntegrator(
diff --git a/integrators/starter.hpp b/integrators/starter.hpp
index 9b315e2..d127ba5 100644
--- a/integrators/starter.hpp
+++ b/integrators/starter.hpp
@@ -28,6 +28,14 @@ class Starter {
           std::int64_t startup_step_divisor,
           not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
 
+  // Constructs a copy of `other` for use by `instance`, which must be a copy of
+  // the instance of `other`.
+  Starter(Starter const& other,
+          not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
+
+  // The copy would update the instance of the original.
+  Starter(Starter const& other) = delete;
+
   // Performs the startup integration, i.e., computes enough states to either
   // reach `s_final` or to reach a point where `instance.previous_steps_` has
   // `order - 1` elements.  During startup `instance.current_state_` is
diff --git a/integrators/starter_body.hpp b/integrators/starter_body.hpp
index 32cedd6..0fa7448 100644
--- a/integrators/starter_body.hpp
+++ b/integrators/starter_body.hpp
@@ -20,6 +20,16 @@ Starter<ODE, Step, steps>::Starter(
       startup_step_divisor_(startup_step_divisor),
       instance_(instance) {}
 
+template<typename ODE, typename Step, int steps>
+Starter<ODE, Step, steps>::Starter(
+    Starter const& other,
+    not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> const instance)
+    : startup_integrator_(other.startup_integrator_),
+      startup_step_divisor_(other.startup_step_divisor_),
+      instance_(instance),
+      startup_step_index_(other.startup_step_index_),
+      previous_steps_(other.previous_steps_) {}
+
 template<typename ODE, typename Step, int steps>
 void Starter<ODE, Step, steps>::Solve(
     typename ODE::IndependentVariable const& s_final) {
diff --git a/integrators/symmetric_linear_multistep_integrator.hpp b/integrators/symmetric_linear_multistep_integrator.hpp
index dac4ebf..8a0b77c 100644
--- a/integrators/symmetric_linear_multistep_integrator.hpp
+++ b/integrators/symmetric_linear_multistep_integrator.hpp
@@ -102,6 +102,9 @@ class SymmetricLinearMultistepIntegrator
              Time const& step,
              SymmetricLinearMultistepIntegrator const& integrator);
 
+    // For cloning.
+    Instance(Instance const& other);
+
     // Performs the velocity computation using the Cohen-Hubbard-Oesterwinter
     // method based on the accelerations computed by the main integrator.
     void ComputeVelocityUsingCohenHubbardOesterwinter();
diff --git a/integrators/symmetric_linear_multistep_integrator_body.hpp b/integrators/symmetric_linear_multistep_integrator_body.hpp
index d36f069..a1ef995 100644
--- a/integrators/symmetric_linear_multistep_integrator_body.hpp
+++ b/integrators/symmetric_linear_multistep_integrator_body.hpp
@@ -278,6 +278,13 @@ SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
       starter_(integrator.startup_integrator_, startup_step_divisor, this),
       integrator_(integrator) {}
 
+template<typename Method, typename ODE_>
+SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 void SymmetricLinearMultistepIntegrator<Method, ODE_>::
 Instance::ComputeVelocityUsingCohenHubbardOesterwinter() {
-- 
2.43.0


From 0d961fe4ad4ebc38d7a8ceb2b32276238a0ed790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:30 +0000
Subject: [PATCH 20/60] fix: Backward integration when the last step is not
 exact

---
 ...eneralized_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 +++-
 integrators/embedded_explicit_runge_kutta_integrator_body.hpp | 4 +++-
 ...d_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
index b06962d..003723d 100644
--- "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -229,7 +229,9 @@ absl::Status EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * ((t.value + (t.error + h)) - t_final) >
+            Time{}) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
index 1b531f3..4de70e3 100644
--- a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
+++ b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
@@ -227,7 +227,9 @@ Solve(typename ODE::IndependentVariable const& s_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && s.value + (s.error + h) > s_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * ((s.value + (s.error + h)) - s_final) >
+            IndependentVariableDifference{}) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
index 05b85a1..28c698a 100644
--- "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -221,7 +221,9 @@ Instance::Solve(Instant const& t_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * ((t.value + (t.error + h)) - t_final) >
+            Time{}) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
-- 
2.43.0


From c7e52c732c9e9f2fc57c760664927a1b4b9065b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 21/60] fix: Exact time at the end of an integration

---
 ...ralized_runge_kutta_nystr\303\266m_integrator_body.hpp" | 7 ++++++-
 .../embedded_explicit_runge_kutta_integrator_body.hpp      | 7 ++++++-
 ...xplicit_runge_kutta_nystr\303\266m_integrator_body.hpp" | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
index 003723d..0273e49 100644
--- "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -244,7 +244,12 @@ absl::Status EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
     }
 
     // Increment the solution with the high-order approximation.
-    t.Increment(h);
+    if (at_end) {
+      // Because of rounding, adding `h` could over/undershoot.
+      t = DoublePrecision<Instant>(t_final);
+    } else {
+      t.Increment(h);
+    }
     for (int k = 0; k < dimension; ++k) {
       q̂[k].Increment(Δq̂[k]);
       v̂[k].Increment(Δv̂[k]);
diff --git a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
index 4de70e3..96e129a 100644
--- a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
+++ b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
@@ -240,7 +240,12 @@ Solve(typename ODE::IndependentVariable const& s_final) {
     }
 
     // Increment the solution with the high-order approximation.
-    s.Increment(h);
+    if (at_end) {
+      // Because of rounding, adding `h` could over/undershoot.
+      s = DoublePrecision<IndependentVariable>(s_final);
+    } else {
+      s.Increment(h);
+    }
     for_all_of(Δŷ, ŷ).loop([](auto const& Δŷ, auto& ŷ) {
       ŷ.Increment(Δŷ);
     });
diff --git "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
index 28c698a..9ad7bf2 100644
--- "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -236,7 +236,12 @@ Instance::Solve(Instant const& t_final) {
     }
 
     // Increment the solution with the high-order approximation.
-    t.Increment(h);
+    if (at_end) {
+      // Because of rounding, adding `h` could over/undershoot.
+      t = DoublePrecision<Instant>(t_final);
+    } else {
+      t.Increment(h);
+    }
     for (int k = 0; k < dimension; ++k) {
       q̂[k].Increment(Δq̂[k]);
       v̂[k].Increment(Δv̂[k]);
-- 
2.43.0


From e6d547caeb4578ef7ff7b4c847d0082b28823b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 22/60] fix: A coefficient of Fine1987RKNG34

---
 integrators/methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/integrators/methods.hpp b/integrators/methods.hpp
index a14c7c0..25142aa 100644
--- a/integrators/methods.hpp
+++ b/integrators/methods.hpp
@@ -557,7 +557,7 @@ struct Fine1987RKNG34 : EmbeddedExplicitGeneralizedRungeKuttaNyström {
   static constexpr FixedStrictlyLowerTriangularMatrix<double, stages> aʹ{{
       {  2 /     9.0,
          1 /    12.0,    1 /   4.0,
-        69 /   128.0, -234 / 128.0, 135 /    64.0,
+        69 /   128.0, -243 / 128.0, 135 /    64.0,
        -17 /    12.0,   27 /   4.0, -27 /     5.0, 16 /    15.0}}};
   static constexpr FixedVector<double, stages> b̂{{
       { 19 /   180.0,    0        ,  63 /   200.0, 16 /   225.0,   1 / 120.0}}};
-- 
2.43.0


From 6bada6b0f58fdb17040383e32284f0ba9d1161e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:40 +0000
Subject: [PATCH 23/60] =?UTF-8?q?fix:=20Pivoting=20when=20solving=20a=203?=
 =?UTF-8?q?=C3=973=20system?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The pivot was chosen in the original matrix and not in the Schur complement, so
nonsingular matrices could be deemed singular, or yield infinities.
---
 geometry/r3x3_matrix_body.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/geometry/r3x3_matrix_body.hpp b/geometry/r3x3_matrix_body.hpp
index 227101b..36d3a3a 100644
--- a/geometry/r3x3_matrix_body.hpp
+++ b/geometry/r3x3_matrix_body.hpp
@@ -181,6 +181,13 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (int k = 0; k < 3; ++k) {
+    // The pivot must be chosen in the k-th column of the Schur complement.
+    for (int i = k; i < 3; ++i) {
+      for (int j = 0; j < k; ++j) {
+        A(i, k) -= L(i, j) * U(j, k);
+      }
+    }
+
     // Partial pivoting.
     int r = -1;
     Scalar max{};
@@ -197,7 +204,8 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
     std::swap(b[k], b[r]);
     CHECK_NE(Scalar{}, A(k, k)) << *this << " is singular";
 
-    for (int j = k; j < 3; ++j) {
+    U(k, k) = A(k, k);
+    for (int j = k + 1; j < 3; ++j) {
       Scalar U_kj = A(k, j);
       for (int i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -205,11 +213,7 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
       U(k, j) = U_kj;
     }
     for (int i = k + 1; i < 3; ++i) {
-      Scalar L_ik = A(i, k);
-      for (int j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      L(i, k) = A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From 42ccf338062e064cbf9209648364a6e269a98536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:41 +0000
Subject: [PATCH 24/60] fix: Truncation of double-precision numbers

When the fractional point is in the value, the sign of the error must not
change the result.
---
 numerics/double_precision_body.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/numerics/double_precision_body.hpp b/numerics/double_precision_body.hpp
index 8337ca6..2b4c7ab 100644
--- a/numerics/double_precision_body.hpp
+++ b/numerics/double_precision_body.hpp
@@ -280,12 +280,17 @@ DoublePrecision<Product<T, U>> Scale(T const & scale,
 
 template<std::floating_point T>
 DoublePrecision<T> Trunc(DoublePrecision<T> const& a) {
-  // The fractional point cannot be in both `value` and `error`.  It is
-  // important to round both elements consistently based on the sign of `value`,
-  // so we cannot use `trunc`.
+  // The fractional point cannot be in both `value` and `error`.
   DoublePrecision<T> result(uninitialized);
-  result.value = a.value > 0.0 ? std::floor(a.value) : std::ceil(a.value);
-  result.error = a.value > 0.0 ? std::floor(a.error) : std::ceil(a.error);
+  result.value = std::trunc(a.value);
+  if (result.value != a.value) {
+    // The fractional point is in `value` so `error` cannot change the result.
+    result.error = 0;
+  } else {
+    // It is important to round `error` based on the sign of `value`, so we
+    // cannot use `trunc`.
+    result.error = a.value > 0.0 ? std::floor(a.error) : std::ceil(a.error);
+  }
   return result;
 }
 
-- 
2.43.0


From 9dfd8222b22b56edf88f6a9af1af620a92b08eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:41 +0000
Subject: [PATCH 25/60] fix: Scaling negative numbers by a large negative power
 of two

The test for the proximity of the subnormal range was always true for negative
numbers, so the power could overflow and the result be 0.
---
 numerics/scale_b_body.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numerics/scale_b_body.hpp b/numerics/scale_b_body.hpp
index 634ea64..187e4f5 100644
--- a/numerics/scale_b_body.hpp
+++ b/numerics/scale_b_body.hpp
@@ -15,8 +15,9 @@ constexpr SourceFormat ScaleB(SourceFormat const x, LogBFormat const N) {
   SourceFormat result = x;
   if (N < 0) {
     for (LogBFormat k = 0; k > N; --k) {
-      if (result < std::numeric_limits<SourceFormat>::radix *
-                       std::numeric_limits<SourceFormat>::min()) {
+      SourceFormat const abs_result = result > 0 ? result : -result;
+      if (abs_result < std::numeric_limits<SourceFormat>::radix *
+                           std::numeric_limits<SourceFormat>::min()) {
         SourceFormat radix_power = 1;
         for (; k > N; --k) {
           radix_power *= std::numeric_limits<SourceFormat>::radix;
-- 
2.43.0


From 1047717c27323ee1029e85e6a5d3a3384cc83549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 26/60] fix: Householder reflections that are not orthogonal
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

When the vector is null it cannot be normalized.  When it is along the first
axis, on the negative side, the factor must be 2 (see the errata of [GV13]).
When it is very close to that axis, the square of v₁ must not be subnormal.
---
 numerics/matrix_computations_body.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 26ffc7a..a474b4e 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -45,6 +45,14 @@ struct HouseholderReflection {
 
 template<typename Vector>
 HouseholderReflection ComputeHouseholderReflection(Vector const& x) {
+  if (UnboundedVector<typename Vector::Scalar>(x).Norm() ==
+      typename Vector::Scalar{}) {
+    // The vector cannot be normalized, and there is nothing to reflect.
+    HouseholderReflection result{.v = UnboundedVector<double>(x.size()),
+                                 .β = 0};
+    result.v[0] = 1;
+    return result;
+  }
   // In order to avoid issues with quantities, we start by normalizing x.  This
   // implies that μ is 1.
   auto const normalized_x =
@@ -57,9 +65,16 @@ HouseholderReflection ComputeHouseholderReflection(Vector const& x) {
   x₂ₘ[0] = 0;
   auto const σ = x₂ₘ.Norm²();
   v₁ = 1;
-  if (σ == 0) {
+  // If σ is very small, the square of v₁ would be subnormal, and the result would
+  // not be orthogonal.
+  static constexpr double negligible = 0x1p-500;
+  if (σ < negligible) {
+    for (std::int64_t i = 1; i < result.v.size(); ++i) {
+      result.v[i] = 0;
+    }
     if (x₁ < 0) {
-      result.β = -2;
+      // Not -2, see the errata of [GV13].
+      result.β = 2;
     }
   } else {
     static constexpr double μ = 1;
-- 
2.43.0


From d413292d1601124d7e5fe6976fea113a36bd9eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 27/60] fix: Exceptional shifts in the QR algorithm

Without them the algorithm may loop forever, e.g., for permutation matrices.
---
 numerics/matrix_computations_body.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index a474b4e..638fafc 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -191,14 +191,23 @@ absl::btree_set<typename Matrix::Scalar> Compute2By2Eigenvalues(
                                                   solutions.end());
 }
 
-// [GV13] algorithm 7.5.1.
+// [GV13] algorithm 7.5.1.  If `exceptional` is true, uses shifts that are not
+// based on the trailing 2×2 block, to get out of the cases where the usual
+// shifts don't make any progress.
 template<typename Scalar, typename Matrix>
-void FrancisQRStep(Matrix& H) {
+void FrancisQRStep(Matrix& H, bool const exceptional) {
   std::int64_t const n = H.rows();
   std::int64_t const m = n - 1;
-  auto const s = H(m - 1, m - 1) + H(n - 1, n - 1);
-  auto const t = H(m - 1, m - 1) * H(n - 1, n - 1) -
-                 H(m - 1, n - 1) * H(n - 1, m - 1);
+  auto s = H(m - 1, m - 1) + H(n - 1, n - 1);
+  auto t = H(m - 1, m - 1) * H(n - 1, n - 1) -
+           H(m - 1, n - 1) * H(n - 1, m - 1);
+  if (exceptional) {
+    // The shifts used by LAPACK (dlahqr).
+    auto const subdiagonal = Abs(H(n - 1, n - 2)) + Abs(H(n - 2, n - 3));
+    auto const h = 0.75 * subdiagonal + H(n - 1, n - 1);
+    s = 2 * h;
+    t = Pow<2>(h) + 0.4375 * Pow<2>(subdiagonal);
+  }
   FixedVector<Scalar, 3> xyz(uninitialized);
   auto& x = xyz[0];
   auto& y = xyz[1];
@@ -901,7 +910,7 @@ RealSchurDecomposition(Matrix const& A, double const ε) {
   auto hessenberg = HessenbergDecomposition(A);
   auto& H = hessenberg.H;
   std::int64_t const n = H.rows();
-  for (;;) {
+  for (std::int64_t iteration = 1;; ++iteration) {
     for (std::int64_t i = 1; i < n; ++i) {
       if (Abs(H(i, i - 1)) <= ε * (Abs(H(i, i)) + Abs(H(i - 1, i - 1)))) {
         H(i, i - 1) = zero;
@@ -941,7 +950,7 @@ RealSchurDecomposition(Matrix const& A, double const ε) {
                                  .last_row = n - q - 1,
                                  .first_column = p,
                                  .last_column = n - q - 1};
-    FrancisQRStep<Scalar>(H₂₂);
+    FrancisQRStep<Scalar>(H₂₂, /*exceptional=*/iteration % 10 == 0);
   }
 
   // Find the real eigenvalues.  Note that they may be part of a 2×2 block which
-- 
2.43.0


From 3f9b4a4340cd5ea0b160ff48bd29c594b739c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 28/60] fix: Pivoting when solving a linear system

The pivot was chosen in the original matrix and not in the Schur complement, so
solving a nonsingular system could yield NaNs.
---
 numerics/matrix_computations_body.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 638fafc..d68e83d 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -1093,6 +1093,13 @@ Solve(Matrix A, Vector b) {
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (std::int64_t k = 0; k < A.columns(); ++k) {
+    // The pivot must be chosen in the k-th column of the Schur complement.
+    for (std::int64_t i = k; i < A.rows(); ++i) {
+      for (std::int64_t j = 0; j < k; ++j) {
+        A(i, k) -= L(i, j) * U(j, k);
+      }
+    }
+
     // Partial pivoting.
     std::int64_t r = -1;
     Scalar max{};
@@ -1119,7 +1126,8 @@ Solve(Matrix A, Vector b) {
     LOG_IF(WARNING, A(k, k) == Scalar{})
         << A << " does not have a unique LU decomposition";
 
-    for (std::int64_t j = k; j < A.columns(); ++j) {
+    U(k, k) = A(k, k);
+    for (std::int64_t j = k + 1; j < A.columns(); ++j) {
       auto U_kj = A(k, j);
       for (std::int64_t i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -1127,11 +1135,8 @@ Solve(Matrix A, Vector b) {
       U(k, j) = U_kj;
     }
     for (std::int64_t i = k + 1; i < A.rows(); ++i) {
-      auto L_ik = A(i, k);
-      for (std::int64_t j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      // If the pivot is zero the column is zero, and any `L(i, k)` would do.
+      L(i, k) = U(k, k) == Scalar{} ? 0 : A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From 981d2a7667e02c25bfd95bf2ef3e226ef67285a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 29/60] fix: Rayleigh quotient iteration with an exact
 eigenvalue

The matrix is then singular, and the result was made of NaNs.
---
 numerics/matrix_computations_body.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index d68e83d..5af8a9f 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -17,6 +17,7 @@
 #include "numerics/transposed_view.hpp"
 #include "numerics/unbounded_arrays.hpp"
 #include "quantities/named_quantities.hpp"
+#include "quantities/quantities.hpp"
 #include "quantities/si.hpp"
 
 namespace principia {
@@ -34,6 +35,7 @@ using namespace principia::numerics::_root_finders;
 using namespace principia::numerics::_transposed_view;
 using namespace principia::numerics::_unbounded_arrays;
 using namespace principia::quantities::_named_quantities;
+using namespace principia::quantities::_quantities;
 using namespace principia::quantities::_si;
 
 // As mentioned in [GV13] section 5.1.4, "It is critical to exploit structure
@@ -1072,7 +1074,17 @@ RayleighQuotientIteration(Matrix const& A, Vector const& x) {
                        si::Unit<decltype(residual)>) {
       return result;
     }
-    auto const zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    auto zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    if (!IsFinite(zₖ₊₁.Norm())) {
+      // `μₖ` is an eigenvalue to within rounding errors, so the matrix is
+      // singular.  Nudge the shift.
+      auto const nudge =
+          std::numeric_limits<double>::epsilon() * A.FrobeniusNorm();
+      for (std::int64_t i = 0; i < A.rows(); ++i) {
+        A_minus_μₖ_I(i, i) -= nudge;
+      }
+      zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    }
     xₖ = zₖ₊₁ / zₖ₊₁.Norm();
   }
   LOG(WARNING) << "Unconverged Rayleigh quotient iteration: " << A;
-- 
2.43.0


From a97b5f5e2929790311e2c56fd3009be708516783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 30/60] =?UTF-8?q?fix:=20Derivative=20of=20a=20constant=20i?=
 =?UTF-8?q?n=20the=20=D0=A7=D0=B5=D0=B1=D1=8B=D1=88=D1=91=D0=B2=20basis?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

It was computed from a coefficient beyond the end of the array.
---
 ...20\261\321\213\321\210\321\221\320\262_basis_body.hpp" | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index ab1efe9..96ac97c 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -198,8 +198,12 @@ PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::EvaluateDerivative(
     bₖ₊₂ = bₖ₊₁;
     bₖ₊₁ = bₖ;
   }
-  return (coefficients_[1] + two_scaled_argument * bₖ₊₁ - bₖ₊₂) *
-         (one_over_width_ + one_over_width_);
+  if constexpr (degree_ == 0) {
+    return Derivative<Value, Argument>{};
+  } else {
+    return (coefficients_[1] + two_scaled_argument * bₖ₊₁ - bₖ₊₂) *
+           (one_over_width_ + one_over_width_);
+  }
 }
 
 template<additive_group Value_, affine Argument_, int degree_>
-- 
2.43.0


From 37a46b2db4deef75a4cd061205b5554b1a3ad328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:45 +0000
Subject: [PATCH 31/60] =?UTF-8?q?fix:=20Roots=20of=20a=20polynomial=20of?=
 =?UTF-8?q?=20degree=201=20in=20the=20=D0=A7=D0=B5=D0=B1=D1=8B=D1=88=D1=91?=
 =?UTF-8?q?=D0=B2=20basis?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The root was off by a factor of 2.
---
 ...1\213\321\210\321\221\320\262_basis_body.hpp" | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index 96ac97c..c3d9b2f 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -374,11 +374,17 @@ absl::btree_set<Argument_>
 PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::
 RealRootsOrDie(double const ε) const {
   if constexpr (convertible_to_quantity<Value>) {
-    auto const companion_matrix = FrobeniusCompanionMatrix();
-    auto const real_schur_decomposition =
-        RealSchurDecomposition(companion_matrix, ε);
-    absl::btree_set<double> const& scaled_real_roots =
-        real_schur_decomposition.real_eigenvalues;
+    absl::btree_set<double> scaled_real_roots;
+    if constexpr (degree_ == 1) {
+      // The recurrence that yields the companion matrix, 2 x Tₙ₋₁ = Tₙ + Tₙ₋₂, is
+      // not applicable.
+      scaled_real_roots.insert(-coefficients_[0] / coefficients_[1]);
+    } else {
+      auto const companion_matrix = FrobeniusCompanionMatrix();
+      auto const real_schur_decomposition =
+          RealSchurDecomposition(companion_matrix, ε);
+      scaled_real_roots = real_schur_decomposition.real_eigenvalues;
+    }
 
     // Rescale from [-1, 1] to [lower_bound_, upper_bound_].
     absl::btree_set<Argument> real_roots;
-- 
2.43.0


From bd0b02f5591fc1eeac0e333b42ca99a42383c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:45 +0000
Subject: [PATCH 32/60] =?UTF-8?q?fix:=20Roots=20of=20a=20polynomial=20in?=
 =?UTF-8?q?=20the=20=D0=A7=D0=B5=D0=B1=D1=8B=D1=88=D1=91=D0=B2=20basis=20w?=
 =?UTF-8?q?ith=20a=20zero=20leading=20coefficient?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The companion matrix was made of NaNs and infinities, so roots were missed.
---
 ...1\321\213\321\210\321\221\320\262_basis_body.hpp" | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index c3d9b2f..bd3dff9 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -374,6 +374,18 @@ absl::btree_set<Argument_>
 PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::
 RealRootsOrDie(double const ε) const {
   if constexpr (convertible_to_quantity<Value>) {
+    // The companion matrix only exists if the leading coefficient is nonzero.
+    if constexpr (degree_ == 0) {
+      return {};
+    } else if (coefficients_[degree_] == Value{}) {
+      using Lower = PolynomialInЧебышёвBasis<Value, Argument, degree_ - 1>;
+      typename Lower::Coefficients coefficients;
+      for (int i = 0; i < degree_; ++i) {
+        coefficients[i] = coefficients_[i];
+      }
+      return Lower(coefficients, lower_bound_, upper_bound_).RealRoots(ε);
+    }
+
     absl::btree_set<double> scaled_real_roots;
     if constexpr (degree_ == 1) {
       // The recurrence that yields the companion matrix, 2 x Tₙ₋₁ = Tₙ + Tₙ₋₂, is
-- 
2.43.0


From 7969a4803feb90606f9c39d02a2665356c34a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:35 +0000
Subject: [PATCH 33/60] fix: Ordinal dates in negative years

---
 astronomy/date_time_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 0bbb525..56354a6 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -112,10 +112,11 @@ constexpr Date Date::YYYYMMDD(
 constexpr Date Date::YYYYDDD(
     std::int64_t const digits,
     std::optional<_date_time::Calendar> const calendar) {
+  auto const abs_digits = digits < 0 ? -digits : digits;
   auto const sign = digits < 0 ? -1 : 1;
-  CONSTEXPR_CHECK(digits <= 9999'999);
-  return Date::Ordinal(sign * digit_range(digits, 3, 7),
-                       digit_range(digits, 0, 3),
+  CONSTEXPR_CHECK(abs_digits <= 9999'999);
+  return Date::Ordinal(sign * digit_range(abs_digits, 3, 7),
+                       digit_range(abs_digits, 0, 3),
                        calendar);
 }
 
-- 
2.43.0


From 56f59f431793bda6914524c2a9353f87219eac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:35 +0000
Subject: [PATCH 34/60] fix: Julian day of proleptic dates in negative years

---
 astronomy/date_time_body.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 56354a6..c807a4b 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -66,6 +66,12 @@ constexpr int ordinal_of_w_01_1(int const year) {
   return mod(2 - day_of_week_on_january_1st(year), 7, -2);
 }
 
+// Meeus’s INT, i.e., a constexpr std::floor; see [Mee98, p. 60].
+constexpr double meeus_int(double const x) {
+  double const truncated = static_cast<double>(static_cast<std::int64_t>(x));
+  return truncated > x ? truncated - 1 : truncated;
+}
+
 // Returns the number formed by taking `end - begin` increasingly significant
 // digits, starting from the digit of the (10 ** `begin`)s.
 constexpr std::int64_t digit_range(std::int64_t const digits,
@@ -228,11 +234,11 @@ constexpr double Date::jd() const {
   if (calendar_ == Calendar::Julian) {
      B = 0;
   } else {
-    double const A = static_cast<std::int64_t>(Y / 100);
-    B = 2 - A + static_cast<std::int64_t>(A / 4);
+    double const A = meeus_int(Y / 100);
+    B = 2 - A + meeus_int(A / 4);
   }
-  return static_cast<std::int64_t>(365.25 * (Y + 4716)) +
-         static_cast<std::int64_t>(30.6001 * (M + 1)) + D + B - 1524.5;
+  return meeus_int(365.25 * (Y + 4716)) +
+         meeus_int(30.6001 * (M + 1)) + D + B - 1524.5;
 }
 
 constexpr int Date::mjd() const {
-- 
2.43.0


From f94ebb9c9713331872aff5d193efb83d88b53bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 35/60] fix: Dates before the origin of the Julian day

---
 astronomy/date_time_body.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index c807a4b..aa9d9ff 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -172,9 +172,7 @@ constexpr Date Date::Week(int const year, int const week, int const day) {
 
 constexpr Date Date::JD(double jd) {
   // The calculation and the notation follow [Mee98, p. 63].
-  // We use casting to std::int64_t as a constexpr std::trunc.  This corresponds
-  // to Meeus’s INT.
-  double const Z = static_cast<std::int64_t>(jd + 0.5);
+  double const Z = meeus_int(jd + 0.5);
   CONSTEXPR_CHECK(Z == jd + 0.5);
   // We require that jd represent midnight, so that the fractional part of jd +
   // 0.5 must be 0.
@@ -185,15 +183,15 @@ constexpr Date Date::JD(double jd) {
     A = Z;
     calendar = Calendar::Julian;
   } else {
-    double const α = static_cast<std::int64_t>((Z - 1867'216.25) / 36524.25);
-    A = Z + 1 + α - static_cast<std::int64_t>(α / 4);
+    double const α = meeus_int((Z - 1867'216.25) / 36524.25);
+    A = Z + 1 + α - meeus_int(α / 4);
     calendar = Calendar::Gregorian;
   }
   double const B = A + 1524;
-  double const C = static_cast<std::int64_t>((B - 122.1) / 365.25);
-  double const D = static_cast<std::int64_t>(365.25 * C);
-  double const E = static_cast<std::int64_t>((B - D) / 30.6001);
-  int const d = B - D - static_cast<std::int64_t>(30.6001 * E) + F;
+  double const C = meeus_int((B - 122.1) / 365.25);
+  double const D = meeus_int(365.25 * C);
+  double const E = meeus_int((B - D) / 30.6001);
+  int const d = B - D - meeus_int(30.6001 * E) + F;
   int const m = E < 14 ? E - 1 : E - 13;
   int const y = m > 2 ? C - 4716 : C - 4715;
   return Date(y, m, d, calendar);
-- 
2.43.0


From 67fb19e32ca47dcb1d486a85e4f5a4956b25570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 36/60] fix: Date-times with a negative year in the basic
 format

---
 astronomy/date_time_body.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index aa9d9ff..effe944 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -1030,8 +1030,13 @@ constexpr DateTime operator""_DateTime(char const* const str,
                                        std::size_t const size) {
   // Given correctness of the date and time parts of the string, this check
   // ensures that either both are in basic format or both are in extended
-  // format.
-  CONSTEXPR_CHECK(contains(str, size, '-') == contains(str, size, ':'));
+  // format.  The calendar prefix and the sign of the year do not count.
+  int const calendar_size = str[0] == 'J' || str[0] == 'G' ? 1 : 0;
+  int const prefix_size =
+      calendar_size +
+      (str[calendar_size] == '+' || str[calendar_size] == '-' ? 1 : 0);
+  CONSTEXPR_CHECK(contains(str + prefix_size, size - prefix_size, '-') ==
+                  contains(str, size, ':'));
   const int index_of_T = index_of(str, size, 'T');
   return DateTime(DateParser::Parse(str, index_of_T),
                   TimeParser::Parse(str + index_of_T + 1,
-- 
2.43.0


From 9b2a883dd710607b187ade5d1425754ae433f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 37/60] fix: Valid UTC times on the days of negative leaps

---
 astronomy/time_scales_body.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index f07ac4c..727f332 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -218,6 +218,7 @@ constexpr bool IsValidStretchyUTCIfOnDayOfNegativeLeap(DateTime const& utc,
   return utc.date().next_day() != next_day ||
          utc.time().hour() < 23 ||
          utc.time().minute() < 59 ||
+         utc.time().second() < 59 ||
          utc.time().millisecond() < 1000 - milliseconds;
 }
 
-- 
2.43.0


From 583df92c50de9a0e6d7e68c44d414e896368d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 38/60] fix: Times past the end of the EOP series

---
 astronomy/time_scales_body.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index 727f332..5cf786f 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -423,6 +423,8 @@ constexpr Instant ExperimentalEOPC02ToEOPC04(ExperimentalEOPC02Entry const& low,
 }
 
 constexpr Instant FromUT1(Time const ut1) {
+  CONSTEXPR_CHECK(mjd(ut1) >= experimental_eop_c02.front().ut1_mjd);
+  CONSTEXPR_CHECK(ut1 < eop_c04.back().ut1());
   if (ut1 < eop_c04.front().ut1()) {
     if ((LookupInExperimentalEOPC02(ut1) + 1)->ut1_mjd >
         mjd(eop_c04.front().ut1())) {
@@ -441,6 +443,7 @@ constexpr Instant FromUT1(Time const ut1) {
 constexpr Angle EarthRotationAngle(Instant const tt) {
   CONSTEXPR_CHECK(tt >= eop_c04.front().tt())
       << "EarthRotationAngle is not implemented before 1962.";
+  CONSTEXPR_CHECK(tt < eop_c04.back().tt());
 
   int ut1_julian_day_number_minus_2451545{};
   double const ut1_julian_day_fraction = InterpolatedEOPC04JulianDayFraction(
-- 
2.43.0


From 6baf83c2591f4cf57fdf6fa16e4ef65408646c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:40 +0000
Subject: [PATCH 39/60] fix: Date strings with eight digits and a W

---
 astronomy/date_time_body.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index effe944..69c4524 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -641,6 +641,7 @@ constexpr Date DateParser::ToDate(std::optional<Calendar> const calendar,
                                   bool const negative) const {
   auto const signed_digits = negative ? -digits_ : digits_;
   if (digit_count_ == 8) {
+    CONSTEXPR_CHECK(!has_w_);
     CONSTEXPR_CHECK(hyphens_ == 0 ||
                     (hyphens_ == 2 &&
                      first_hyphen_index_ == 4 &&
-- 
2.43.0


From 7f0e5c4f0b2c643eda83cdca25278d0eaf3285b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 40/60] fix: Nonrotating motion between frames of the same
 handedness

---
 physics/rigid_motion_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/physics/rigid_motion_body.hpp b/physics/rigid_motion_body.hpp
index 773e294..b95dfb4 100644
--- a/physics/rigid_motion_body.hpp
+++ b/physics/rigid_motion_body.hpp
@@ -129,7 +129,7 @@ RigidMotion<FromFrame, ToFrame>::MakeNonRotatingMotion(
     return RigidMotion(RigidTransformation<FromFrame, ToFrame>(
                            FromFrame::origin,
                            degrees_of_freedom_of_from_frame_origin.position(),
-                           Identity<FromFrame, ToFrame>().Forget()),
+                           OrthogonalMap<FromFrame, ToFrame>::Identity()),
                        ToFrame::nonrotating,
                        degrees_of_freedom_of_from_frame_origin.velocity());
   } else {
-- 
2.43.0


From 4f59ba8521a943d8e0a2f0a7e33cec0bd57dbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 41/60] fix: Prepending to a trajectory with points but no
 polynomials

---
 physics/continuous_trajectory_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/physics/continuous_trajectory_body.hpp b/physics/continuous_trajectory_body.hpp
index 6964967..dc7736a 100644
--- a/physics/continuous_trajectory_body.hpp
+++ b/physics/continuous_trajectory_body.hpp
@@ -136,9 +136,11 @@ void ContinuousTrajectory<Frame>::Prepend(ContinuousTrajectory&& prefix) {
 
   if (prefix.polynomials_.empty()) {
     // Nothing to do.
-  } else if (polynomials_.empty()) {
+  } else if (!first_time_.has_value()) {
     // All the data comes from `prefix`.  This must set all the fields of
-    // this object that are not set at construction.
+    // this object that are not set at construction.  Note that we must not do
+    // this if this object has points that are not in a polynomial yet: they may
+    // go beyond the ones of `prefix`.
     adjusted_tolerance_ = prefix.adjusted_tolerance_;
     is_unstable_ = prefix.is_unstable_;
     degree_ = prefix.degree_;
-- 
2.43.0


From dcd9cc7bc16518e2379cb7a31bc67d75b10b5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 42/60] fix: Reading an ephemeris at a time before its first
 checkpoint

When the time to be read was between the beginning of the trajectories and
their oldest checkpoint, there were neither polynomials nor a checkpoint
covering it, and reading the save was fatal.  The oldest checkpoint has the
points that cover it.
---
 physics/continuous_trajectory_body.hpp | 13 ++++++++++++-
 physics/ephemeris_body.hpp             |  7 +++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/physics/continuous_trajectory_body.hpp b/physics/continuous_trajectory_body.hpp
index dc7736a..b99b338 100644
--- a/physics/continuous_trajectory_body.hpp
+++ b/physics/continuous_trajectory_body.hpp
@@ -564,12 +564,23 @@ ContinuousTrajectory<Frame>::ReadFromMessage(
   // trajectory, for modern saves (see the comment in WriteToMessage).  In the
   // pre-Grassman case the (only) checkpoint may be after `desired_t_min`, but
   // then we should have polynomials covering that time, see #3039.
+  // If `desired_t_min` is between the first point and the oldest checkpoint, and
+  // no polynomial covers it, that checkpoint has the points that do.
   auto const status =
       continuous_trajectory->checkpointer_->ReadFromCheckpointAtOrBefore(
           desired_t_min);
   if (!status.ok()) {
     CHECK(absl::IsNotFound(status));
-    CHECK_LE(continuous_trajectory->t_min(), desired_t_min);
+    if (continuous_trajectory->empty()) {
+      auto& checkpointer = *continuous_trajectory->checkpointer_;
+      CHECK_OK(checkpointer.ReadFromCheckpointAt(
+          checkpointer.oldest_checkpoint()));
+      absl::ReaderMutexLock l(&continuous_trajectory->lock_);
+      CHECK(continuous_trajectory->first_time_.has_value());
+      CHECK_LE(*continuous_trajectory->first_time_, desired_t_min);
+    } else {
+      CHECK_LE(continuous_trajectory->t_min(), desired_t_min);
+    }
   }
 
   return continuous_trajectory;
diff --git a/physics/ephemeris_body.hpp b/physics/ephemeris_body.hpp
index 7523491..7f53b14 100644
--- a/physics/ephemeris_body.hpp
+++ b/physics/ephemeris_body.hpp
@@ -889,6 +889,13 @@ not_null<std::unique_ptr<Ephemeris<Frame>>> Ephemeris<Frame>::ReadFromMessage(
   // `last_points_.size() > 1`).
   ephemeris->oldest_reanimated_checkpoint_ =
       ephemeris->checkpointer_->checkpoint_at_or_before(desired_t_min);
+  if (ephemeris->oldest_reanimated_checkpoint_ == InfinitePast &&
+      ephemeris->empty()) {
+    // The trajectories have checked that `desired_t_min` is at or after their
+    // first point.
+    ephemeris->oldest_reanimated_checkpoint_ =
+        ephemeris->checkpointer_->oldest_checkpoint();
+  }
   if (ephemeris->oldest_reanimated_checkpoint_ == InfinitePast) {
     // In the pre-Grassmann compatibility case the (only) checkpoint may be
     // after `desired_t_min`.  This also happens with old saves that are
-- 
2.43.0


From 0f3dcb5d4f41279dc94838fb6338f525078345fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:50 +0000
Subject: [PATCH 43/60] fix: Mean anomaly of a hyperbolic orbit before its
 periapsis

The hyperbolic eccentric anomaly was computed from its cosine, so it was always
positive, and a body approaching its periapsis was found to be leaving it.
---
 physics/kepler_orbit_body.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index 7e9e3c8..c8e7c5c 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -606,8 +606,10 @@ void KeplerOrbit<Frame>::CompleteAnomalies(KeplerianElements<Frame>& elements) {
         ArcTan(Sqrt(1 - Pow<2>(e)) * sin_ν, e + cos_ν);
     mean_anomaly =
         positive_angle(eccentric_anomaly - e * Sin(eccentric_anomaly) * Radian);
+    // The hyperbolic cosine does not determine the sign of the anomaly, which is
+    // negative before the periapsis.
     Angle const hyperbolic_eccentric_anomaly =
-        ArcCosh((e + cos_ν) / (1 + e * cos_ν));
+        Sign(sin_ν) * ArcCosh((e + cos_ν) / (1 + e * cos_ν));
     hyperbolic_mean_anomaly = e * Sinh(hyperbolic_eccentric_anomaly) * Radian -
                               hyperbolic_eccentric_anomaly;
   } else if (mean_anomaly) {
-- 
2.43.0


From a18af3b3ccaf564d61e2211e5c5fcb95e98ad360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 44/60] fix: Kepler orbits from circular or equatorial states

The argument of the periapsis was measured from an ascending node, or to a
periapsis, which is zero for these orbits, and was rounding noise, possibly out
of the plane of the orbit, for nearly circular ones.  The orbit thus obtained
didn't go through the given state.
---
 physics/kepler_orbit_body.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index c8e7c5c..e4b620f 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -162,14 +162,14 @@ KeplerOrbit<Frame>::KeplerOrbit(
   // does not depend on the coordinate system).
   Vector<double, Frame> const eccentricity_vector =
       v * h / (μ * Radian) - Normalize(r);
+  // For an equatorial orbit the ascending node is undefined, and we take it
+  // along the x axis.
+  Vector<SpecificAngularMomentum, Frame> const ascending_node =
+      z * h == Vector<SpecificAngularMomentum, Frame>{} ? x * h.Norm() : z * h;
   auto const& periapsis = eccentricity_vector;
-  Vector<SpecificAngularMomentum, Frame> const ascending_node = z * h;
 
   // Inclination (above the xy plane).
   Angle const i = AngleBetween(x_wedge_y, h);
-  // Argument of periapsis.
-  Angle const ω = ReduceAngle<0.0, 2 * π>(
-      OrientedAngleBetween(ascending_node, periapsis, h));
   // Longitude of ascending node.
   // This is equivalent to `OrientedAngleBetween(x, ascending_node, x_wedge_y)`
   // since `ascending_node` lies in the xy plane.
@@ -177,6 +177,12 @@ KeplerOrbit<Frame>::KeplerOrbit(
       ArcTan(ascending_node.coordinates().y, ascending_node.coordinates().x));
   Angle const true_anomaly =
       ReduceAngle<0.0, 2 * π>(OrientedAngleBetween(periapsis, r, h));
+  // Argument of periapsis.  When the orbit is nearly circular the periapsis is
+  // ill-determined, but the argument of latitude is not.
+  Angle const argument_of_latitude =
+      OrientedAngleBetween(ascending_node, r, h);
+  Angle const ω =
+      ReduceAngle<0.0, 2 * π>(argument_of_latitude - true_anomaly);
 
   SpecificEnergy const ε = v.Norm²() / 2 - μ / r.Norm();
   double const e = eccentricity_vector.Norm();
-- 
2.43.0


From 4619c455d69bc2c0b2c5378594249ca4afe1db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:14 +0000
Subject: [PATCH 45/60] fix: Ascending nodes followed by an extremum within the
 same step

Whether a node is ascending was determined by the vertical velocity at the end
of the step, which may have changed sign since the node.
---
 physics/apsides_body.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/physics/apsides_body.hpp b/physics/apsides_body.hpp
index 27418b7..01a3487 100644
--- a/physics/apsides_body.hpp
+++ b/physics/apsides_body.hpp
@@ -532,9 +532,10 @@ absl::Status ComputeNodes(
           trajectory.EvaluateDegreesOfFreedom(node_time);
       if (predicate(node_degrees_of_freedom)) {
         if (Sign(InnerProduct(north, Vector<double, Frame>({0, 0, 1}))) ==
-            Sign(z_speed)) {
+            Sign(z)) {
           // `north` is up and we are going up, or `north` is down and we are
-          // going down.
+          // going down.  Note that `z_speed` is irrelevant here, as we may have
+          // gone past an extremum of `z`.
           ascending.emplace(node_time, node_degrees_of_freedom);
         } else {
           descending.emplace(node_time, node_degrees_of_freedom);
-- 
2.43.0


From efd2a96446c33e7987445b854bd75e5eba265187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:55 +0000
Subject: [PATCH 46/60] fix: Apsides where the extrema of the distance cannot
 be found

The linear interpolation meant for this case was unused, and the time of the
apsis was read from an empty array.  This happens, for instance, when the
trajectory goes through the reference.
---
 physics/apsides_body.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/physics/apsides_body.hpp b/physics/apsides_body.hpp
index 01a3487..9078dc7 100644
--- a/physics/apsides_body.hpp
+++ b/physics/apsides_body.hpp
@@ -105,11 +105,10 @@ void ComputeApsides(Trajectory<Frame> const& reference,
       BoundedArray<Instant, 2> const extrema =
           squared_distance_approximation.FindExtrema();
 
-      // Now look at the extrema and check that exactly one is in the required
-      // time interval.  This is normally the case, but it can fail due to
-      // ill-conditioning.
+      // There is normally exactly one extremum in the required time interval,
+      // but that can fail due to ill-conditioning.
       Instant apsis_time;
-      if (extrema.size() != 1) {
+      if (extrema.empty()) {
         // Something went wrong when finding the extrema of
         // `squared_distance_approximation`. Use a linear interpolation of
         // `squared_distance_derivative` instead.
@@ -121,8 +120,9 @@ void ComputeApsides(Trajectory<Frame> const& reference,
         LOG_IF(WARNING, apsis_time == previous_time)
             << "Suspicious apsis at the beginning of a time interval: "
             << apsis_time;
+      } else {
+        apsis_time = extrema.back();
       }
-      apsis_time = extrema.back();
 
       // This can happen for instance if the square distance is stationary.
       // Safer to give up.
-- 
2.43.0


From 0413b7111eaf1a02c2ff55dcd13e9bc9bb1354ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:09 +0000
Subject: [PATCH 47/60] fix: Attitude of a rigid body that is almost of
 revolution

---
 physics/euler_solver.hpp      |  5 +++++
 physics/euler_solver_body.hpp | 30 ++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/physics/euler_solver.hpp b/physics/euler_solver.hpp
index 0ac2176..397fae6 100644
--- a/physics/euler_solver.hpp
+++ b/physics/euler_solver.hpp
@@ -125,6 +125,11 @@ class EulerSolver {
   Rotation<PreferredPrincipalAxesFrame, ℬₜ> Compute𝒫ₜ(
       PreferredAngularMomentumBivector const& angular_momentum) const;
 
+  // Computes the term in Π(φ, n|m) of ψ, for formulæ (i) and (ii).  For a small
+  // characteristic, the term in F(φ|m) is omitted: it is linear in time, and it
+  // is included in `ψ_t_multiplier_` to avoid cancellations.
+  Angle ComputeψEllipticTerm(Angle const& φ) const;
+
   // Construction parameters.
   R3Element<MomentOfInertia> const moments_of_inertia_;
   Bivector<AngularMomentum, InertialFrame> const
diff --git a/physics/euler_solver_body.hpp b/physics/euler_solver_body.hpp
index 1c6cdab..3f7da5c 100644
--- a/physics/euler_solver_body.hpp
+++ b/physics/euler_solver_body.hpp
@@ -190,11 +190,10 @@ EulerSolver<InertialFrame, PrincipalAxesFrame>::EulerSolver(
       ψ_sn_multiplier_ = Sqrt(I₂ * I₃₁);
       ψ_arctan_multiplier_ = -1;
       ψ_elliptic_pi_multiplier_ = G_ * I₁₃ / (λ_ * I₁ * I₃);
-      ψ_offset_ = ψ_elliptic_pi_multiplier_ *
-                      EllipticΠ(JacobiAmplitude(-ν_, mc_), n_, mc_) +
+      ψ_offset_ = ComputeψEllipticTerm(JacobiAmplitude(-ν_, mc_)) +
                   ψ_arctan_multiplier_ *
                       ArcTan(ψ_sn_multiplier_ * sn, ψ_cn_multiplier_ * cn);
-      ψ_t_multiplier_ = G_ / I₁;
+      ψ_t_multiplier_ = n_ < -1 ? G_ / I₁ : G_ / I₃;
 
       break;
     }
@@ -215,11 +214,10 @@ EulerSolver<InertialFrame, PrincipalAxesFrame>::EulerSolver(
       ψ_sn_multiplier_ = Sqrt(I₂ * I₃₁);
       ψ_arctan_multiplier_ = 1;
       ψ_elliptic_pi_multiplier_ = G_ * I₃₁ / (λ_ * I₁ * I₃);
-      ψ_offset_ = ψ_elliptic_pi_multiplier_ *
-                      EllipticΠ(JacobiAmplitude(-ν_, mc_), n_, mc_) +
+      ψ_offset_ = ComputeψEllipticTerm(JacobiAmplitude(-ν_, mc_)) +
                   ψ_arctan_multiplier_ *
                       ArcTan(ψ_sn_multiplier_ * sn, ψ_cn_multiplier_ * cn);
-      ψ_t_multiplier_ = G_ / I₃;
+      ψ_t_multiplier_ = n_ < -1 ? G_ / I₃ : G_ / I₁;
 
       break;
     }
@@ -338,7 +336,7 @@ EulerSolver<InertialFrame, PrincipalAxesFrame>::AttitudeAt(
       double dn;
       JacobiSNCNDN(λ_ * Δt - ν_, mc_, sn, cn, dn);
       Angle const φ = JacobiAmplitude(λ_ * Δt - ν_, mc_);
-      ψ += ψ_elliptic_pi_multiplier_ * EllipticΠ(φ, n_, mc_) +
+      ψ += ComputeψEllipticTerm(φ) +
            ψ_arctan_multiplier_ *
                ArcTan(ψ_sn_multiplier_ * sn, ψ_cn_multiplier_ * cn) -
            ψ_offset_;
@@ -350,7 +348,7 @@ EulerSolver<InertialFrame, PrincipalAxesFrame>::AttitudeAt(
       double dn;
       JacobiSNCNDN(λ_ * Δt - ν_, mc_, sn, cn, dn);
       Angle const φ = JacobiAmplitude(λ_ * Δt - ν_, mc_);
-      ψ += ψ_elliptic_pi_multiplier_ * EllipticΠ(φ, n_, mc_) +
+      ψ += ComputeψEllipticTerm(φ) +
            ψ_arctan_multiplier_ *
                ArcTan(ψ_sn_multiplier_ * sn, ψ_cn_multiplier_ * cn) -
            ψ_offset_;
@@ -501,6 +499,22 @@ EulerSolver<InertialFrame, PrincipalAxesFrame>::Compute𝒫ₜ(
   return 𝒫ₜ;
 }
 
+template<typename InertialFrame, typename PrincipalAxesFrame>
+Angle EulerSolver<InertialFrame, PrincipalAxesFrame>::ComputeψEllipticTerm(
+    Angle const& φ) const {
+  if (n_ < -1) {
+    return ψ_elliptic_pi_multiplier_ * EllipticΠ(φ, n_, mc_);
+  } else {
+    // When the body is almost axisymmetric, the multiplier may be arbitrarily
+    // large, but then n is small.
+    Angle B;
+    Angle D;
+    Angle J;
+    FukushimaEllipticBDJ(φ, n_, mc_, B, D, J);
+    return ψ_elliptic_pi_multiplier_ * n_ * J;
+  }
+}
+
 }  // namespace internal
 }  // namespace _euler_solver
 }  // namespace physics
-- 
2.43.0


From e71d946cfb4cfb7c2042c10fce3204150e39e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:09 +0000
Subject: [PATCH 48/60] fix: Rotation of a rigid body almost about its second
 axis

---
 physics/euler_solver_body.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/physics/euler_solver_body.hpp b/physics/euler_solver_body.hpp
index 3f7da5c..99e5d63 100644
--- a/physics/euler_solver_body.hpp
+++ b/physics/euler_solver_body.hpp
@@ -222,7 +222,12 @@ EulerSolver<InertialFrame, PrincipalAxesFrame>::EulerSolver(
       break;
     }
     case Formula::iii: {
-      ν_ = -ArcTanh(m.y / G_);
+      // Near the second axis the inverse tangent is inaccurate, or even NaN if
+      // `m.y` exceeds `G_` because of rounding errors.  The two expressions are
+      // mathematically the same.
+      auto const m_x²_plus_m_z² = m.x * m.x + m.z * m.z;
+      ν_ = m.y * m.y < m_x²_plus_m_z² ? -ArcTanh(m.y / G_)
+                                      : -ArcSinh(m.y / Sqrt(m_x²_plus_m_z²));
       auto const λ₂ = Sqrt(-Δ₁ * Δ₃ / (I₁ * I₃)) / G_;
       λ_ = λ₂;
 
-- 
2.43.0


From 974d8bae4d03aa259b8707fb242190afdfc47d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:04 +0000
Subject: [PATCH 49/60] fix: Latitude of null vectors and of vectors close to
 the poles

---
 geometry/r3_element_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/r3_element_body.hpp b/geometry/r3_element_body.hpp
index 1ea0ef0..bf39d64 100644
--- a/geometry/r3_element_body.hpp
+++ b/geometry/r3_element_body.hpp
@@ -176,7 +176,7 @@ template<typename Scalar>
 SphericalCoordinates<Scalar> R3Element<Scalar>::ToSpherical() const {
   SphericalCoordinates<Scalar> result;
   result.radius = Norm();
-  result.latitude = ArcSin(z / result.radius);
+  result.latitude = ArcTan(z, Sqrt(x * x + y * y));
   result.longitude = ArcTan(y, x);
   return result;
 }
-- 
2.43.0


From 5d9c52a0d271fb1133aa424af65760b06e2d0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:22 +0000
Subject: [PATCH 50/60] =?UTF-8?q?fix:=20Masses=20of=20the=20man=C5=93uvres?=
 =?UTF-8?q?=20after=20the=20one=20that=20is=20removed?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

UpdateInitialMassOfManœuvresAfter(index) leaves the manœuvre at index
unchanged.  After the removal the manœuvre at index is the one that
followed the one that was removed, and its mass was not recomputed.
---
 ksp_plugin/flight_plan.cpp | 7 ++++---
 ksp_plugin/flight_plan.hpp | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ksp_plugin/flight_plan.cpp b/ksp_plugin/flight_plan.cpp
index 7165553..7e9c476 100644
--- a/ksp_plugin/flight_plan.cpp
+++ b/ksp_plugin/flight_plan.cpp
@@ -191,7 +191,7 @@ absl::Status FlightPlan::Remove(int const index) {
   CHECK_LT(index, number_of_manœuvres());
   manœuvres_.erase(manœuvres_.begin() + index);
   coast_analysers_.erase(coast_analysers_.begin() + index + 1);
-  UpdateInitialMassOfManœuvresAfter(index);
+  UpdateInitialMassOfManœuvresAfter(index - 1);
   PopSegmentsAffectedByManœuvre(index);
   return ComputeSegments(manœuvres_.begin() + index,
                          manœuvres_.end(),
@@ -641,10 +641,11 @@ void FlightPlan::PopSegmentsAffectedByManœuvre(int const index) {
 }
 
 void FlightPlan::UpdateInitialMassOfManœuvresAfter(int const index) {
-  if (index >= manœuvres_.size()) {
+  if (index >= number_of_manœuvres()) {
     return;
   }
-  Mass initial_mass = manœuvres_[index].final_mass();
+  Mass initial_mass =
+      index < 0 ? initial_mass_ : manœuvres_[index].final_mass();
   for (int i = index + 1; i < manœuvres_.size(); ++i) {
     manœuvres_[i] = NavigationManœuvre(initial_mass, manœuvres_[i].burn());
     initial_mass = manœuvres_[i].final_mass();
diff --git a/ksp_plugin/flight_plan.hpp b/ksp_plugin/flight_plan.hpp
index 8001a19..b979944 100644
--- a/ksp_plugin/flight_plan.hpp
+++ b/ksp_plugin/flight_plan.hpp
@@ -218,7 +218,8 @@ class FlightPlan {
 
   // Reconstructs each manœuvre after `manœuvres_[index]` (starting with
   // `manœuvres_[index + 1]`), keeping the same burns but recomputing the
-  // initial masses from `manœuvres_[index].final_mass()`.
+  // initial masses from `manœuvres_[index].final_mass()`.  If `index` is -1,
+  // reconstructs all the manœuvres starting with the initial mass of the plan.
   void UpdateInitialMassOfManœuvresAfter(int index);
 
   // Starts a thread to prolong the ephemeris if needed.
-- 
2.43.0


From 620e214624a5c79f2f2ce9fc463f17c3e4d5b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:22 +0000
Subject: [PATCH 51/60] fix: Status of a copy of an anomalous flight plan

The copy had the anomalous segments of the original but an OK status.
---
 ksp_plugin/flight_plan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ksp_plugin/flight_plan.cpp b/ksp_plugin/flight_plan.cpp
index 7e9c476..77eb48d 100644
--- a/ksp_plugin/flight_plan.cpp
+++ b/ksp_plugin/flight_plan.cpp
@@ -97,6 +97,7 @@ FlightPlan::FlightPlan(FlightPlan const& other)
       ephemeris_(other.ephemeris_),
       desired_final_time_(other.desired_final_time_),
       anomalous_segments_(other.anomalous_segments_),
+      anomalous_status_(other.anomalous_status_),
       manœuvres_(other.manœuvres_),
       analysis_is_enabled_(other.analysis_is_enabled_),
       adaptive_step_parameters_(other.adaptive_step_parameters_),
-- 
2.43.0


From 9be8d17bffe7438f491f344958f8c2a1c1ce97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:22 +0000
Subject: [PATCH 52/60] fix: Burns that overlap because the mass has changed
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Replacing or removing a manœuvre changes the masses, and therefore the
durations, of the ones that follow.  When two of them overlapped as a
result the integration of the coast between them died because it was
towards the past.
---
 ksp_plugin/flight_plan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ksp_plugin/flight_plan.cpp b/ksp_plugin/flight_plan.cpp
index 77eb48d..4061e66 100644
--- a/ksp_plugin/flight_plan.cpp
+++ b/ksp_plugin/flight_plan.cpp
@@ -511,6 +511,12 @@ absl::Status FlightPlan::CoastSegment(
     ephemeris_->AwaitReanimation(starting_time);
   }
 
+  // A change of the mass lengthens or shortens the burns that follow, so they
+  // may overlap.  It is not possible to integrate towards the past.
+  if (desired_final_time < starting_time) {
+    return DoesNotFit();
+  }
+
   return ephemeris_->FlowWithAdaptiveStep(
                          &trajectory_,
                          Ephemeris<Barycentric>::NoIntrinsicAcceleration,
-- 
2.43.0


From de02009f26d5f064421aba9d04ff7468ef054b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:16 +0000
Subject: [PATCH 53/60] fix: Deletion of the flight plan of a vessel that has
 none

It is documented as performing no action, but erased an element before the
beginning of the vector of flight plans.
---
 ksp_plugin/vessel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ksp_plugin/vessel.cpp b/ksp_plugin/vessel.cpp
index 12072c1..a96d1c6 100644
--- a/ksp_plugin/vessel.cpp
+++ b/ksp_plugin/vessel.cpp
@@ -509,6 +509,9 @@ void Vessel::DuplicateFlightPlan() {
 }
 
 void Vessel::DeleteFlightPlan() {
+  if (!has_flight_plan()) {
+    return;
+  }
   flight_plans_.erase(flight_plans_.begin() + selected_flight_plan_index_);
   if (selected_flight_plan_index_ == flight_plans_.size()) {
     --selected_flight_plan_index_;
-- 
2.43.0


From 151f2373353852508304a656014532d47323ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:16 +0000
Subject: [PATCH 54/60] fix: Rebasing of flight plans whose burns don't all fit
 anymore
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The manœuvres that followed one that could not be inserted were inserted
past the end of the flight plan, which dies.
---
 ksp_plugin/vessel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ksp_plugin/vessel.cpp b/ksp_plugin/vessel.cpp
index a96d1c6..1cb9298 100644
--- a/ksp_plugin/vessel.cpp
+++ b/ksp_plugin/vessel.cpp
@@ -553,7 +553,10 @@ absl::Status Vessel::RebaseFlightPlan(Mass const& initial_mass) {
        i < original_flight_plan->number_of_manœuvres();
        ++i) {
     auto const& manœuvre = original_flight_plan->GetManœuvre(i);
-    flight_plan->Insert(manœuvre.burn(), i - first_manœuvre_kept).IgnoreError();
+    // Some of the manœuvres may not fit, because the change of the mass changes
+    // their durations.
+    flight_plan->Insert(manœuvre.burn(),
+                        flight_plan->number_of_manœuvres()).IgnoreError();
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From c0a8ed61a8f03f472ad585c9dbfdd88867884b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:16 +0000
Subject: [PATCH 55/60] fix: Predictions that are replaced by an empty one

The old prediction remained in the trajectory, followed by an empty segment,
so that the psychohistory was not followed by the prediction.
---
 ksp_plugin/vessel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ksp_plugin/vessel.cpp b/ksp_plugin/vessel.cpp
index 1cb9298..0ca794a 100644
--- a/ksp_plugin/vessel.cpp
+++ b/ksp_plugin/vessel.cpp
@@ -1337,13 +1337,13 @@ void Vessel::AttachPrediction(DiscreteTrajectory<Barycentric>&& trajectory) {
   CHECK(it == trajectory.end() || psychohistory_back < it->time);
   trajectory.ForgetBefore(it);
 
+  if (prediction_ != trajectory_.segments().end()) {
+    trajectory_.DeleteSegments(prediction_);
+  }
   if (trajectory.empty()) {
     prediction_ = trajectory_.NewSegment();
   } else {
     CHECK_LT(psychohistory_back, trajectory.front().time);
-    if (prediction_ != trajectory_.segments().end()) {
-      trajectory_.DeleteSegments(prediction_);
-    }
     prediction_ = trajectory_.AttachSegments(std::move(trajectory));
   }
 }
-- 
2.43.0


From 49c7adc820cf6812b519693739505ba3c0ee5807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:36 +0000
Subject: [PATCH 56/60] fix: Awaiting the reanimation of a vessel that was not
 deserialized

It never terminated if the desired time was before the creation of the
vessel, because the oldest reanimated checkpoint was never the oldest
checkpoint.
---
 ksp_plugin/vessel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ksp_plugin/vessel.hpp b/ksp_plugin/vessel.hpp
index 900c8ca..030c1fe 100644
--- a/ksp_plugin/vessel.hpp
+++ b/ksp_plugin/vessel.hpp
@@ -456,7 +456,7 @@ class Vessel {
 
   // Vessels that are constructed de novo won't ever need reanimation, so all
   // the checkpoints are animate at birth.
-  Instant oldest_reanimated_checkpoint_ ABSL_GUARDED_BY(lock_) = InfinitePast;
+  Instant oldest_reanimated_checkpoint_ ABSL_GUARDED_BY(lock_) = InfiniteFuture;
 
   // The techniques and terminology follow [Lov22].
   RecurringThread<ReanimatorParameters> reanimator_;
-- 
2.43.0


From 2f2c930d1ed026611ebff7241802ace86c410946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:14 +0000
Subject: [PATCH 57/60] fix: Focal plane of a perspective whose similarity has
 a scale

The coordinates along the axis of the camera were off by the square of the
scale, so that the segments were cut at the wrong place.
---
 geometry/perspective_body.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geometry/perspective_body.hpp b/geometry/perspective_body.hpp
index cd1d9c6..47a18b4 100644
--- a/geometry/perspective_body.hpp
+++ b/geometry/perspective_body.hpp
@@ -71,10 +71,11 @@ template<typename FromFrame, typename ToFrame>
 std::optional<Segment<FromFrame>>
 Perspective<FromFrame, ToFrame>::SegmentBehindFocalPlane(
     Segment<FromFrame> const& segment) const {
-  Vector<double, FromFrame> const z =
-      from_camera_.linear_map()(Vector<double, ToFrame>({0.0, 0.0, 1.0}));
-  Length const z1 = InnerProduct(segment.first - camera_, z);
-  Length const z2 = InnerProduct(segment.second - camera_, z);
+  // The focal is a length in the frame of the camera, and so must these be.
+  Length const z1 =
+      (to_camera_(segment.first) - ToFrame::origin).coordinates().z;
+  Length const z2 =
+      (to_camera_(segment.second) - ToFrame::origin).coordinates().z;
   bool const first_is_visible = z1 >= focal_;
   bool const second_is_visible = z2 >= focal_;
   if (first_is_visible && second_is_visible) {
-- 
2.43.0


From b715a6b538b049c525041739d89434e8157ba7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:14 +0000
Subject: [PATCH 58/60] fix: Points hidden by a sphere that contains the camera

The points on the other side of the camera with respect to the centre were
considered visible, but there is no horizon in this case.
---
 geometry/perspective_body.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geometry/perspective_body.hpp b/geometry/perspective_body.hpp
index 47a18b4..20ec3be 100644
--- a/geometry/perspective_body.hpp
+++ b/geometry/perspective_body.hpp
@@ -131,6 +131,11 @@ bool Perspective<FromFrame, ToFrame>::IsHiddenBySphere(
     return true;
   }
 
+  // If the camera lies in the sphere, then everything is hidden.
+  if (camera_to_centre² < r²) {
+    return true;
+  }
+
   // Squared distance between the camera and the horizon, i.e., the circle
   // where the cone from the camera tangents the sphere.  Plain Πυθαγόρας.
   auto const camera_to_horizon² = camera_to_centre² - r²;
-- 
2.43.0


From 778c2faf02db80b206aabb5b2f66ecfcb84f1321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:14 +0000
Subject: [PATCH 59/60] fix: Visible part of a segment that is seen as a point

The plane through the camera and the segment is undefined in this case, e.g., if
the ends of the segment are identical, and the result could have coordinates
that are NaN.
---
 geometry/perspective_body.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geometry/perspective_body.hpp b/geometry/perspective_body.hpp
index 20ec3be..b06dd49 100644
--- a/geometry/perspective_body.hpp
+++ b/geometry/perspective_body.hpp
@@ -216,6 +216,14 @@ Perspective<FromFrame, ToFrame>::VisibleSegments(
   auto const KAKB = InnerProduct(KA, KB);
 
   auto const determinant = KA² * KB² - KAKB * KAKB;
+  if (determinant <= Square<Square<Length>>{}) {
+    // The plane KAB is undefined: the segment is seen as a point.
+    if (IsHiddenBySphere(A, sphere) && IsHiddenBySphere(B, sphere)) {
+      return {};
+    } else {
+      return {segment};
+    }
+  }
   double const α = (KB² * KAKC - KAKB * KBKC) / determinant;
   double const β = (KA² * KBKC - KAKB * KAKC) / determinant;
   Displacement<FromFrame> const KH = α * KA + β * KB;
-- 
2.43.0


From 57aa2d1a86fc3a92d2bc6c4633fdc673a17f7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:06 +0000
Subject: [PATCH 60/60] fix: Hiding of a segment with an end in the plane of
 the camera

If the first end of the segment was in the plane through the camera orthogonal
to the direction of the centre, the equation for the tangents had a double
solution and the segment was not hidden at all.
---
 geometry/perspective_body.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/geometry/perspective_body.hpp b/geometry/perspective_body.hpp
index b06dd49..c00ab03 100644
--- a/geometry/perspective_body.hpp
+++ b/geometry/perspective_body.hpp
@@ -249,21 +249,34 @@ Perspective<FromFrame, ToFrame>::VisibleSegments(
     return {segment};
   }
 
+  auto const KAKH = InnerProduct(KA, KH);
+  auto const KBKH = InnerProduct(KB, KH);
+
+  // In the system below we divide by KU·KH, where U is A, and V is B, unless
+  // KA·KH is so small that there would be cancellations; if it vanished, the
+  // quadratic equation would even have a double solution.
+  bool const u_is_a = Abs(KAKH) > 0x1p-10 * Abs(KBKH);
+  Displacement<FromFrame> const& KU = u_is_a ? KA : KB;
+  Displacement<FromFrame> const& KV = u_is_a ? KB : KA;
+  auto const KU² = u_is_a ? KA² : KB²;
+  auto const KV² = u_is_a ? KB² : KA²;
+  auto const KUKH = u_is_a ? KAKH : KBKH;
+  auto const KVKH = u_is_a ? KBKH : KAKH;
+  auto const& KUKV = KAKB;
+
   // P is a point of the plane KAB where a line going through K is tangent to
   // the circle .  It is such that:
-  //   PH = γ * KA + δ * KB
+  //   PH = γ * KU + δ * KV
   // where γ and δ are computed by solving the system:
   //   PH² = r²
   //   PH·KH = r²
   // We expect that there are two such points because the sphere intersects the
   // plane, but if the segment is seen under a very small angle, cancellations
   // may cause the quadratic equation to have no solution.
-  auto const KAKH = InnerProduct(KA, KH);
-  auto const KBKH = InnerProduct(KB, KH);
-  auto const a0 = r² * (r² * KA² - KAKH * KAKH);
-  auto const a1 = 2.0 * r² * (KAKB * KAKH - KA² * KBKH);
+  auto const a0 = r² * (r² * KU² - KUKH * KUKH);
+  auto const a1 = 2.0 * r² * (KUKV * KUKH - KU² * KVKH);
   auto const a2 =
-      KB² * KAKH * KAKH - 2.0 * KAKB * KAKH * KBKH + KA² * KBKH * KBKH;
+      KV² * KUKH * KUKH - 2.0 * KUKV * KUKH * KVKH + KU² * KVKH * KVKH;
   BoundedArray<double, 2> const δs =
       SolveQuadraticEquation(/*origin=*/0.0, a0, a1, a2);
   if (δs.size() != 2) {
@@ -295,8 +308,8 @@ Perspective<FromFrame, ToFrame>::VisibleSegments(
   double infinity = 0.0;  // Might be NaN in cases where it's not used.
   auto const KH² = KH.Norm²();
   for (double const δ : δs) {
-    double const γ = (r² - δ * KBKH) / KAKH;
-    Displacement<FromFrame> const PH = γ * KA + δ * KB;
+    double const γ = (r² - δ * KVKH) / KUKH;
+    Displacement<FromFrame> const PH = γ * KU + δ * KV;
     auto const KAPH = InnerProduct(KA, PH);
     auto const KHPH = InnerProduct(KH, PH);
     auto const ABPH = InnerProduct(AB, PH);
-- 
2.43.0

