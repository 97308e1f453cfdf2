From ef043bacdf91466163ee68c0765ebffbc30aa904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 001/133] fix: round_robin no longer ends early when its
 trailing pipelines are exhausted

---
 .../fairseq2n/data/round_robin_data_source.cc | 52 ++++++++++---------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/native/src/fairseq2n/data/round_robin_data_source.cc b/native/src/fairseq2n/data/round_robin_data_source.cc
index 5ee1042..10dc247 100644
--- a/native/src/fairseq2n/data/round_robin_data_source.cc
+++ b/native/src/fairseq2n/data/round_robin_data_source.cc
@@ -39,35 +39,39 @@ round_robin_data_source::next()
     if (pipelines_.empty() || is_eod_)
         return std::nullopt;
 
-    // At the beginning of the next round, check if all data pipelines had at
-    // least one epoch. If that is the case, we can signal EOD.
-    if (buffer_idx_ == 0) {
-        if (are_all_done())
-            return std::nullopt;
-    }
+    while (true) {
+        // At the beginning of the next round, check if all data pipelines had
+        // at least one epoch. If that is the case, we can signal EOD.
+        if (buffer_idx_ == 0) {
+            if (are_all_done())
+                return std::nullopt;
+        }
 
-    // If this is the first call, gather the first round of examples.
-    if (buffer_.empty()) {
-        for (std::size_t i = 0; i < pipelines_.size(); i++)
-            buffer_.push_back(next_in_pipeline(i));
-    }
+        // If this is the first call, gather the first round of examples.
+        if (buffer_.empty()) {
+            for (std::size_t i = 0; i < pipelines_.size(); i++)
+                buffer_.push_back(next_in_pipeline(i));
+        }
 
-    std::optional<data> output{};
+        std::optional<data> output{};
 
-    // One or more data pipelines might be empty, so we have to check if a
-    // buffered example has a value before returning it.
-    for (; !output && buffer_idx_ < buffer_.size(); buffer_idx_++) {
-        std::optional<data> &maybe_example = buffer_[buffer_idx_];
-        if (maybe_example)
-            // Fill the position with the next round's example.
-            output = std::exchange(maybe_example, next_in_pipeline(buffer_idx_));
-    }
+        // One or more data pipelines might be empty, so we have to check if a
+        // buffered example has a value before returning it.
+        for (; !output && buffer_idx_ < buffer_.size(); buffer_idx_++) {
+            std::optional<data> &maybe_example = buffer_[buffer_idx_];
+            if (maybe_example)
+                // Fill the position with the next round's example.
+                output = std::exchange(maybe_example, next_in_pipeline(buffer_idx_));
+        }
 
-    if (buffer_idx_ == buffer_.size())
-        buffer_idx_ = 0;
+        if (buffer_idx_ == buffer_.size())
+            buffer_idx_ = 0;
 
-    // Might not have a value if all data pipelines were empty.
-    return output;
+        if (output)
+            return output;
+
+        // The rest of this round had no examples, move on to the next one.
+    }
 }
 
 void
-- 
2.43.0


From 1a9de7d241ff74d6b16507e57d9b0dd650b16f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 002/133] fix: repeat records whether its epoch had data in its
 position

---
 native/src/fairseq2n/data/repeat_data_source.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/native/src/fairseq2n/data/repeat_data_source.cc b/native/src/fairseq2n/data/repeat_data_source.cc
index da6d4c8..f904a35 100644
--- a/native/src/fairseq2n/data/repeat_data_source.cc
+++ b/native/src/fairseq2n/data/repeat_data_source.cc
@@ -49,6 +49,8 @@ repeat_data_source::reset(bool reset_rng)
 void
 repeat_data_source::record_position(tape &t, bool strict) const
 {
+    t.record(has_data_);
+
     t.record(repeat_nr_);
 
     inner_->record_position(t, strict);
@@ -57,6 +59,8 @@ repeat_data_source::record_position(tape &t, bool strict) const
 void
 repeat_data_source::reload_position(tape &t, bool strict)
 {
+    has_data_ = t.read<bool>();
+
     repeat_nr_ = t.read<std::size_t>();
 
     inner_->reload_position(t, strict);
-- 
2.43.0


From b1421d0aa2919ba26911dcacdc1fa106d801563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 003/133] fix: dynamic_bucket resets and records the buckets
 that it has not returned yet

---
 native/src/fairseq2n/data/dynamic_bucket_data_source.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
index 13b2eff..e74a03e 100644
--- a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
+++ b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
@@ -96,6 +96,7 @@ void
 dynamic_bucket_data_source::reset(bool reset_rng)
 {
     buffer_.clear();
+    return_buffer_.clear();
     inner_->reset(reset_rng);
 }
 
@@ -104,6 +105,8 @@ dynamic_bucket_data_source::record_position(tape &t, bool strict) const
 {
     if (maybe_bucket_creation_fn_) {
         t.record(buffer_);
+
+        t.record(data_list{return_buffer_.begin(), return_buffer_.end()});
     }
     inner_->record_position(t, strict);
 }
@@ -113,6 +116,10 @@ dynamic_bucket_data_source::reload_position(tape &t, bool strict)
 {
     if (maybe_bucket_creation_fn_) {
         buffer_ = t.read<data_list>();
+
+        auto return_buffer = t.read<data_list>();
+
+        return_buffer_.assign(return_buffer.begin(), return_buffer.end());
     }
     inner_->reload_position(t, strict);
 }
-- 
2.43.0


From 7a5ee6292bbb0d6f00cbed661d0c21ae9bcf3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 004/133] fix: pack drops a stale remainder when its position
 is reloaded

---
 native/src/fairseq2n/data/packed_data_source.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/native/src/fairseq2n/data/packed_data_source.cc b/native/src/fairseq2n/data/packed_data_source.cc
index adffb2a..3944e98 100644
--- a/native/src/fairseq2n/data/packed_data_source.cc
+++ b/native/src/fairseq2n/data/packed_data_source.cc
@@ -149,6 +149,8 @@ packed_data_source::reload_position(tape &t, bool strict)
     bool has_remainder = t.read<bool>();
     if (has_remainder)
         remainder_ = t.read<at::Tensor>();
+    else
+        remainder_.reset();
 
     inner_->reload_position(t, strict);
 }
-- 
2.43.0


From d0267a4e32d89cbf4fe2477db400ad868fa5b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 005/133] fix: sample never selects an exhausted pipeline nor
 runs out of bounds

---
 .../src/fairseq2n/data/sample_data_source.cc   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/native/src/fairseq2n/data/sample_data_source.cc b/native/src/fairseq2n/data/sample_data_source.cc
index f6bee07..4d0b6f3 100644
--- a/native/src/fairseq2n/data/sample_data_source.cc
+++ b/native/src/fairseq2n/data/sample_data_source.cc
@@ -76,6 +76,10 @@ sample_data_source::next()
     if (buffer_.empty()) {
         for (std::size_t i = 0; i < pipelines_.size(); i++)
             buffer_.push_back(next_in_pipeline(i));
+
+        // All data pipelines might be empty.
+        if (std::none_of(buffer_.begin(), buffer_.end(), [](const auto &e) { return e.has_value(); }))
+            return std::nullopt;
     }
 
     std::size_t pipeline_idx = random_pipeline_index();
@@ -174,12 +178,16 @@ sample_data_source::random_pipeline_index()
     // When allow_repeats_ is false, exhausted pipelines have cumsum[idx] == cumsum[idx-1].
     // Skip forward to find the next active pipeline that "owns" this probability mass.
     if (!allow_repeats_) { 
-        while (is_epoch_done_[lptr]) {
+        while (lptr < buffer_.size() && !buffer_[lptr])
             lptr++;
-            // Should never happen since at least one pipeline is active 
-            // (guaranteed by are_all_done() check in next())
-            // and the buffer has the size of pipelines so we don't risk to overflow
-            assert(lptr < buffer_.size());
+
+        // Due to rounding, the cumulative sum of the last active pipeline might
+        // be less than 1.0. Fall back to it; it is guaranteed to exist by the
+        // are_all_done() check in next().
+        if (lptr == buffer_.size()) {
+            do {
+                lptr--;
+            } while (!buffer_[lptr]);
         }
     }
 
-- 
2.43.0


From cb9c578487c6bbf1d1fb32b74bfed8c5bcb58be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 006/133] fix: dynamic_bucket rejects a bucket creation
 function that returns no bucket

---
 native/src/fairseq2n/data/dynamic_bucket_data_source.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
index e74a03e..40a1c7a 100644
--- a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
+++ b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
@@ -8,6 +8,8 @@
 
 #include <vector>
 
+#include "fairseq2n/data/detail/exception.h"
+
 namespace fairseq2n::detail {
 
 dynamic_bucket_data_source::dynamic_bucket_data_source(
@@ -73,6 +75,10 @@ dynamic_bucket_data_source::next()
             const bucket_creation_fn& fn = *maybe_bucket_creation_fn_;
             auto&& [return_buffer, new_buffer] = fn(std::move(buffer_));
 
+            if (return_buffer.empty())
+                throw_data_pipeline_error(/*maybe_example=*/std::nullopt, /*recoverable=*/false,
+                    "The bucket creation function must return at least one bucket.");
+
             buffer_ = std::move(new_buffer);
 
             data output{return_buffer.front()};
-- 
2.43.0


From 64debec3a8721442d7375050fc42a111a3de1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 007/133] fix: prefetch returns examples read before an error
 and resumes after it

---
 .../fairseq2n/data/prefetch_data_source.cc    | 41 ++++++++++++++-----
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/native/src/fairseq2n/data/prefetch_data_source.cc b/native/src/fairseq2n/data/prefetch_data_source.cc
index a6ff5f7..d2eb341 100644
--- a/native/src/fairseq2n/data/prefetch_data_source.cc
+++ b/native/src/fairseq2n/data/prefetch_data_source.cc
@@ -38,8 +38,18 @@ prefetch_data_source::next()
                 return state_ != prefetch_state::running || !fill_queue_.empty();
             });
 
-            if (state_ == prefetch_state::faulted)
-                std::rethrow_exception(exception_ptr_);
+            // Make sure that we return all examples read before the error.
+            if (state_ == prefetch_state::faulted && fill_queue_.empty()) {
+                queue_lock.unlock();
+
+                stop_prefetch_thread();
+
+                // If the error is recoverable, the next call should resume
+                // reading from the inner data source.
+                state_ = prefetch_state::not_running;
+
+                std::rethrow_exception(std::exchange(exception_ptr_, nullptr));
+            }
 
             std::swap(next_queue_, fill_queue_);
         }
@@ -62,8 +72,8 @@ prefetch_data_source::reset(bool reset_rng)
 {
     stop_prefetch_thread();
 
-    if (state_ == prefetch_state::faulted)
-        std::rethrow_exception(exception_ptr_);
+    // An error that has not been surfaced yet does not matter anymore.
+    exception_ptr_ = nullptr;
 
     state_ = prefetch_state::not_running;
 
@@ -78,8 +88,15 @@ prefetch_data_source::record_position(tape &t, bool strict) const
 {
     stop_prefetch_thread();
 
-    if (state_ == prefetch_state::faulted)
-        std::rethrow_exception(exception_ptr_);
+    if (state_ == prefetch_state::faulted) {
+        try {
+            std::rethrow_exception(exception_ptr_);
+        } catch (const data_pipeline_error &ex) {
+            // A recoverable error does not invalidate our position.
+            if (!ex.recoverable())
+                throw;
+        }
+    }
 
     if (strict) {
         data_list fill_buffer{fill_queue_.begin(), fill_queue_.end()};
@@ -97,8 +114,8 @@ prefetch_data_source::reload_position(tape &t, bool strict)
 {
     stop_prefetch_thread();
 
-    if (state_ == prefetch_state::faulted)
-        std::rethrow_exception(exception_ptr_);
+    // An error that has not been surfaced yet does not matter anymore.
+    exception_ptr_ = nullptr;
 
     state_ = prefetch_state::not_running;
 
@@ -125,8 +142,12 @@ prefetch_data_source::finitude_type() const noexcept
 void
 prefetch_data_source::ensure_prefetch_thread_running()
 {
-    if (state_ == prefetch_state::eod || state_ == prefetch_state::faulted)
-        return;
+    {
+        std::unique_lock<std::mutex> queue_lock{queue_mutex_};
+
+        if (state_ == prefetch_state::eod || state_ == prefetch_state::faulted)
+            return;
+    }
 
     if (prefetch_thread_.joinable())
         return;
-- 
2.43.0


From d02f6ec5726b2ec992a60d9108a7ecd9884bd693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 008/133] fix: concurrent calls to an element mapper no longer
 share a buffer

---
 native/src/fairseq2n/data/element_mapper.cc | 25 +++++++++------------
 native/src/fairseq2n/data/element_mapper.h  |  1 -
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/native/src/fairseq2n/data/element_mapper.cc b/native/src/fairseq2n/data/element_mapper.cc
index 5d36bdf..a5fbbcf 100644
--- a/native/src/fairseq2n/data/element_mapper.cc
+++ b/native/src/fairseq2n/data/element_mapper.cc
@@ -25,20 +25,23 @@ element_mapper::element_mapper(map_fn fn, std::optional<std::string> maybe_selec
 }
 
 data
-element_mapper::operator()(data &&d) try
+element_mapper::operator()(data &&d)
 {
     if (!maybe_selector_)
         return map_fn_(std::move(d));
 
-    maybe_selector_->visit(d, [this](data &element, element_path_ref path)
+    // Must not be shared, the mapper can be called from multiple threads.
+    std::vector<std::tuple<element_path, data *>> buffer{};
+
+    maybe_selector_->visit(d, [&buffer](data &element, element_path_ref path)
     {
-        buffer_.emplace_back(element_path(path.begin(), path.end()), &element);
+        buffer.emplace_back(element_path(path.begin(), path.end()), &element);
     });
 
-    auto apply_function = [this](std::size_t begin, std::size_t end)
+    auto apply_function = [this, &buffer](std::size_t begin, std::size_t end)
     {
         for (auto i = begin; i < end; ++i) {
-            auto &[path, element] = buffer_[i];
+            auto &[path, element] = buffer[i];
 
             try {
                 *element = map_fn_(std::move(*element));
@@ -49,18 +52,12 @@ element_mapper::operator()(data &&d) try
         }
     };
 
-    if (buffer_.size() == 1)
-        apply_function(0, buffer_.size());
+    if (buffer.size() == 1)
+        apply_function(0, buffer.size());
     else
-        parallel_for<std::size_t>(apply_function, buffer_.size());
-
-    buffer_.clear();
+        parallel_for<std::size_t>(apply_function, buffer.size());
 
     return std::move(d);
-} catch (const std::exception &) {
-    buffer_.clear();
-
-    throw;
 }
 
 }  // namespace fairseq2n
diff --git a/native/src/fairseq2n/data/element_mapper.h b/native/src/fairseq2n/data/element_mapper.h
index 5e21668..c8d8ea5 100644
--- a/native/src/fairseq2n/data/element_mapper.h
+++ b/native/src/fairseq2n/data/element_mapper.h
@@ -29,7 +29,6 @@ public:
 private:
     map_fn map_fn_;
     std::optional<element_selector> maybe_selector_{};
-    std::vector<std::tuple<element_path, data *>> buffer_{};
 };
 
 }  // namespace fairseq2n
-- 
2.43.0


From 7b626b5c2eeb819c4c703e9d26dfecb34b9a5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 009/133] fix: non-deterministic map no longer loses wakeups
 nor outlives its tasks

---
 native/src/fairseq2n/data/map_data_source.cc | 53 ++++++++++++++------
 native/src/fairseq2n/data/map_data_source.h  |  8 +++
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/native/src/fairseq2n/data/map_data_source.cc b/native/src/fairseq2n/data/map_data_source.cc
index 849d045..f361fb3 100644
--- a/native/src/fairseq2n/data/map_data_source.cc
+++ b/native/src/fairseq2n/data/map_data_source.cc
@@ -38,6 +38,12 @@ map_data_source::map_data_source(
     buffer_pos_ = buffer_.begin();
 }
 
+map_data_source::~map_data_source()
+{
+    // The tasks in flight have a pointer to this instance.
+    wait_until_done();
+}
+
 std::optional<data>
 map_data_source::next()
 {
@@ -71,11 +77,16 @@ map_data_source::next()
             // Wait until the next output is ready
             std::unique_lock<std::mutex> lock{async_output_mutex_};
             read_output_condition_.wait(lock, [this] {
-                return !async_queue_.empty() || exception_ptr_;
+                return !async_queue_.empty() || exception_ptr_ || tasks_in_flight_ == 0;
             });
 
             if (exception_ptr_)
-                std::rethrow_exception(exception_ptr_);
+                std::rethrow_exception(std::exchange(exception_ptr_, nullptr));
+
+            // A task whose output we have already returned was the last one in
+            // flight.
+            if (async_queue_.empty())
+                continue;
 
             auto example = std::move(async_queue_.front());
             async_queue_.pop_front();
@@ -115,6 +126,10 @@ map_data_source::record_position(tape &t, bool strict) const
             // Write the queue on the tape
             {
                 std::unique_lock<std::mutex> lock{async_output_mutex_};
+
+                if (exception_ptr_)
+                    std::rethrow_exception(exception_ptr_);
+
                 t.record(async_queue_.size());
 
                 for (const auto &element : async_queue_)
@@ -202,7 +217,7 @@ bool
 map_data_source::has_async_output()
 {
     std::unique_lock<std::mutex> lock(async_output_mutex_);
-    return !async_queue_.empty();
+    return !async_queue_.empty() || exception_ptr_;
 }
 
 void
@@ -210,6 +225,9 @@ map_data_source::reset_async_state()
 {
     wait_until_done();
 
+    // An error that has not been surfaced yet does not matter anymore.
+    exception_ptr_ = nullptr;
+
     finished_ = false;
 }
 
@@ -218,29 +236,34 @@ map_data_source::wait_until_done() const
 {
     std::unique_lock<std::mutex> lock{async_output_mutex_};
     read_output_condition_.wait(lock, [this] {
-        return tasks_in_flight_ == 0 || exception_ptr_;
+        return tasks_in_flight_ == 0;
     });
-
-    if (exception_ptr_)
-        std::rethrow_exception(exception_ptr_);
 }
 
 void
 map_data_source::AsyncMapTask::operator()() const
 {
+    std::optional<data> maybe_result{};
+
+    std::exception_ptr exception_ptr{};
+
     try {
         // Move out of example, even though we're in a const operator
-        data result = p_this->map_fns_[0](std::move(example));
-
-        {
-            std::unique_lock<std::mutex> lock(p_this->async_output_mutex_);
-            p_this->async_queue_.emplace_back(std::move(result));
-        }
+        maybe_result = p_this->map_fns_[0](std::move(example));
     } catch (...) {
-        std::unique_lock<std::mutex> lock(p_this->async_output_mutex_);
-        p_this->exception_ptr_ = std::current_exception();
+        exception_ptr = std::current_exception();
     }
 
+    // The output and the decrement must become visible at once; otherwise, the
+    // reader can miss that this was the last task. The lock is also held while
+    // notifying since the data source can be deleted right after its release.
+    std::unique_lock<std::mutex> lock(p_this->async_output_mutex_);
+
+    if (exception_ptr)
+        p_this->exception_ptr_ = std::move(exception_ptr);
+    else
+        p_this->async_queue_.emplace_back(std::move(maybe_result));
+
     p_this->tasks_in_flight_--;
     p_this->read_output_condition_.notify_one();
 }
diff --git a/native/src/fairseq2n/data/map_data_source.h b/native/src/fairseq2n/data/map_data_source.h
index f13250d..1d88e6b 100644
--- a/native/src/fairseq2n/data/map_data_source.h
+++ b/native/src/fairseq2n/data/map_data_source.h
@@ -30,6 +30,14 @@ public:
         std::size_t num_parallel_calls,
         bool deterministic_);
 
+    map_data_source(const map_data_source &) = delete;
+    map_data_source & operator=(const map_data_source &) = delete;
+
+    map_data_source(map_data_source &&) = delete;
+    map_data_source & operator=(map_data_source &&) = delete;
+
+   ~map_data_source() override;
+
     std::optional<data>
     next() override;
 
-- 
2.43.0


From 4fc6c3dda5c56d4100d2c936234a4764d3032bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 010/133] fix: parallel map surfaces an error in place of its
 example, not of its batch

---
 native/src/fairseq2n/data/map_data_source.cc | 43 ++++++++++++++++++--
 native/src/fairseq2n/data/map_data_source.h  |  1 +
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/native/src/fairseq2n/data/map_data_source.cc b/native/src/fairseq2n/data/map_data_source.cc
index f361fb3..4e8bb1e 100644
--- a/native/src/fairseq2n/data/map_data_source.cc
+++ b/native/src/fairseq2n/data/map_data_source.cc
@@ -68,6 +68,13 @@ map_data_source::next()
 
                     return output;
                 }
+
+                auto idx = static_cast<std::size_t>(buffer_pos_ - buffer_.begin());
+                if (idx < buffer_errors_.size() && buffer_errors_[idx]) {
+                    ++buffer_pos_;
+
+                    std::rethrow_exception(std::exchange(buffer_errors_[idx], nullptr));
+                }
             }
             // If we have exhausted all buffered examples, try to refill the buffer.
         } while (fill_buffer());
@@ -103,6 +110,8 @@ map_data_source::reset(bool reset_rng)
 {
     buffer_.clear();
 
+    buffer_errors_.clear();
+
     buffer_pos_ = buffer_.begin();
 
     reset_async_state();
@@ -144,6 +153,8 @@ map_data_source::record_position(tape &t, bool strict) const
 void
 map_data_source::reload_position(tape &t, bool strict)
 {
+    buffer_errors_.clear();
+
     if (strict && deterministic_) {
         buffer_ = t.read<std::vector<std::optional<data>>>();
 
@@ -185,8 +196,24 @@ map_data_source::fill_buffer()
 {
     buffer_.clear();
 
+    buffer_errors_.assign(num_parallel_calls_, nullptr);
+
+    buffer_pos_ = buffer_.begin();
+
     for (std::size_t i = 0; i < num_parallel_calls_; i++) {
-        std::optional<data> maybe_example = inner_->next();
+        std::optional<data> maybe_example{};
+
+        try {
+            maybe_example = inner_->next();
+        } catch (...) {
+            // Surface the error after the examples that precede it.
+            buffer_errors_[i] = std::current_exception();
+
+            buffer_.push_back(std::nullopt);
+
+            break;
+        }
+
         if (!maybe_example)
             break;
 
@@ -200,8 +227,18 @@ map_data_source::fill_buffer()
 
     // Apply the processor to all buffered examples.
     auto apply_function = [this](std::size_t begin, std::size_t end) {
-        for (auto i = begin; i < end; ++i)
-            buffer_[i] = invoke_function(*std::move(buffer_[i]), i);
+        for (auto i = begin; i < end; ++i) {
+            if (!buffer_[i])
+                continue;
+
+            try {
+                buffer_[i] = invoke_function(*std::move(buffer_[i]), i);
+            } catch (...) {
+                buffer_errors_[i] = std::current_exception();
+
+                buffer_[i] = std::nullopt;
+            }
+        }
     };
 
     // Avoid threading overhead if we have just one example.
diff --git a/native/src/fairseq2n/data/map_data_source.h b/native/src/fairseq2n/data/map_data_source.h
index 1d88e6b..388d937 100644
--- a/native/src/fairseq2n/data/map_data_source.h
+++ b/native/src/fairseq2n/data/map_data_source.h
@@ -88,6 +88,7 @@ private:
     std::size_t num_parallel_calls_;
     bool deterministic_;
     std::vector<std::optional<data>> buffer_{};
+    std::vector<std::exception_ptr> buffer_errors_{};
     std::vector<std::optional<data>>::iterator buffer_pos_{};
 
     mutable std::mutex async_output_mutex_{};
-- 
2.43.0


From 0135a339c83d86cac5efa10ad8433c41866ad143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 011/133] fix: zip no longer mistakes finite pipelines for
 infinite ones and vice versa

---
 native/src/fairseq2n/data/zip_data_source.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/native/src/fairseq2n/data/zip_data_source.cc b/native/src/fairseq2n/data/zip_data_source.cc
index f4cbd08..6709a71 100644
--- a/native/src/fairseq2n/data/zip_data_source.cc
+++ b/native/src/fairseq2n/data/zip_data_source.cc
@@ -32,14 +32,14 @@ zip_data_source::zip_data_source(
     bool all_finite = pipelines_.empty() || std::all_of(
         pipelines_.begin(), pipelines_.end(), [](const data_pipeline &p) 
         {
-            return p.finitude_type() != data_source_finitude_type::finite;
+            return p.finitude_type() != data_source_finitude_type::infinite;
         }
     );
     
     bool all_infinite = !pipelines_.empty() && std::all_of(
         pipelines_.begin(), pipelines_.end(), [](const data_pipeline &p) 
         {
-            return p.finitude_type() != data_source_finitude_type::infinite;
+            return p.finitude_type() != data_source_finitude_type::finite;
         }
     );
 
-- 
2.43.0


From a7c171c9298521df6058f83f2885467c33c20a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 012/133] fix: reloading the initial position of a data
 pipeline resets its RNGs

---
 native/src/fairseq2n/data/data_pipeline.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/data_pipeline.cc b/native/src/fairseq2n/data/data_pipeline.cc
index 03d7035..b5d5717 100644
--- a/native/src/fairseq2n/data/data_pipeline.cc
+++ b/native/src/fairseq2n/data/data_pipeline.cc
@@ -141,7 +141,9 @@ data_pipeline::reload_position(tape &t)
             throw;
         }
     } else
-        reset();
+        // The position was recorded before the first read; our RNGs have to be
+        // in their initial state as well.
+        reset(/*reset_rng=*/true);
 }
 
 data_source_finitude_type
-- 
2.43.0


From 50681fe32c85db5734b8628941f77827b8666a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 013/133] fix: the position of a fully read sample op without
 repeats can be reloaded

---
 native/src/fairseq2n/data/sample_data_source.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/sample_data_source.cc b/native/src/fairseq2n/data/sample_data_source.cc
index 4d0b6f3..b66f0d9 100644
--- a/native/src/fairseq2n/data/sample_data_source.cc
+++ b/native/src/fairseq2n/data/sample_data_source.cc
@@ -235,7 +235,8 @@ sample_data_source::block(std::size_t idx)
 
     float32 sum = weight_cumsums_.back();
 
-    if (!are_close(sum, 1.0F)) {
+    // If all pipelines are exhausted, there is nothing left to normalize.
+    if (sum > 0.0F && !are_close(sum, 1.0F)) {
         for (float32 &s : weight_cumsums_)
             s /= sum;
     }
-- 
2.43.0


From cddabc5f4c0c5c2a70d6a076da39853938b75740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 014/133] fix: deleting a checkpoint is atomic on local file
 systems

---
 src/fairseq2/checkpoint/manager.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index d54491e..e984d62 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -675,8 +675,19 @@ class StandardCheckpointManager(CheckpointManager):
                 raise_operational_system_error(ex)
 
             if step_dir_exists:
+                is_local = self._is_local_checkpoint_dir()
+
+                # On local file systems, hide the checkpoint with an atomic
+                # rename first, so that it is never listed partially deleted.
                 try:
                     if keep_model:
+                        trainer_dir = step_dir.joinpath("trainer")
+
+                        if is_local and self._file_system.exists(trainer_dir):
+                            tmp_trainer_dir = trainer_dir.with_suffix(".tmp")
+
+                            self._file_system.move(trainer_dir, tmp_trainer_dir)
+
                         for path in self._file_system.glob(step_dir, pattern="*"):
                             if path.stem in ("model", "hg", "hook"):
                                 continue
@@ -686,6 +697,11 @@ class StandardCheckpointManager(CheckpointManager):
                             else:
                                 self._file_system.remove(path)
                     else:
+                        if is_local:
+                            self._file_system.move(step_dir, tmp_step_dir)
+
+                            step_dir = tmp_step_dir
+
                         self._file_system.remove_directory(step_dir)
                 except OSError as ex:
                     raise_operational_system_error(ex)
-- 
2.43.0


From 36abd6ef2e565837dc597c8cbe6fbfb2e6f0b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 015/133] fix: checkpoint scores are written atomically

---
 src/fairseq2/checkpoint/manager.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index e984d62..a6f856b 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -537,8 +537,12 @@ class StandardCheckpointManager(CheckpointManager):
 
             score_file = scores_dir.joinpath(f"step_{step_nr}.txt")
 
+            # Write to a temporary file first, so that a crash never leaves a
+            # truncated score behind.
+            tmp_score_file = score_file.with_suffix(".tmp")
+
             try:
-                fp = self._file_system.open_text(score_file, mode=FileMode.WRITE)
+                fp = self._file_system.open_text(tmp_score_file, mode=FileMode.WRITE)
             except OSError as ex:
                 raise_operational_system_error(ex)
 
@@ -549,6 +553,11 @@ class StandardCheckpointManager(CheckpointManager):
             finally:
                 fp.close()
 
+            try:
+                self._file_system.move(tmp_score_file, score_file)
+            except OSError as ex:
+                raise_operational_system_error(ex)
+
         try:
             gangs.root.barrier()
         except GangError as ex:
-- 
2.43.0


From bdeb43c9a6467b2cfab86fad1a84f8c08ac070f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 016/133] fix: NaN checkpoint scores sort below all other
 scores

---
 src/fairseq2/checkpoint/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index a6f856b..b39238a 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -11,6 +11,7 @@ from collections.abc import Callable
 from concurrent.futures import Future
 from copy import deepcopy
 from dataclasses import dataclass
+from math import inf, isnan
 from pathlib import Path
 from pickle import PickleError
 from typing import Any, Protocol, final
@@ -853,7 +854,11 @@ class StandardCheckpointManager(CheckpointManager):
 
             scores.append((score, step_nr))
 
-        scores.sort(reverse=True)
+        # NaN does not compare; treat it as worse than any other score.
+        scores.sort(
+            key=lambda s: (-inf if isnan(s[0]) else s[0], not isnan(s[0]), s[1]),
+            reverse=True,
+        )
 
         return scores
 
-- 
2.43.0


From 1033918d8af683f8bdcb9353066e1b860a9b07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 017/133] fix: skip pre-validation if there is no validator

`self._validate` is a method and never `None`; training failed with an
internal error if `validate_at_start` was set without a validator.
---
 src/fairseq2/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 42459c0..33bdf9f 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -466,7 +466,7 @@ class Trainer(Task):
                         self._state = self._stop()
 
     def _pre_validate(self) -> _TrainerState:
-        if self._validate is not None:
+        if self._validator is not NOOP_VALIDATOR:
             self._validate()
 
         return _TrainerState.DATA_LOAD
-- 
2.43.0


From d4c465f64493ef0504c18756e94feb2e4f1d6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 018/133] fix: honor stop requests if the number of steps is
 limited

A stop request was ignored whenever `max_num_steps` was set.
---
 src/fairseq2/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 33bdf9f..40ba2d1 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -682,7 +682,8 @@ class Trainer(Task):
         if self._max_num_steps is not None:
             if self._step_nr >= self._max_num_steps:
                 return _TrainerState.END_OF_TRAINING
-        elif self._stop_requested:
+
+        if self._stop_requested:
             return _TrainerState.STOP_REQUESTED
 
         self._maybe_save_checkpoint(blocking=False)
-- 
2.43.0


From 341e53e2da0e414233483fb82f6629232a35568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 019/133] fix: do not count an overflowed step if training is
 stopped

If a stop was requested while a step overflowed, the final checkpoint
counted that step although its gradients were not applied.
---
 src/fairseq2/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 40ba2d1..723f3dc 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -667,15 +667,15 @@ class Trainer(Task):
             log.info("Overflow detected at step {}, ignoring gradient, decreasing loss scale from {:g} to {:g}.", self._step_nr, result.old_scale, result.new_scale)  # fmt: skip
 
     def _repeat_step(self, progress_task: ProgressTask) -> _TrainerState:
-        if self._stop_requested:
-            return _TrainerState.STOP_REQUESTED
-
         log.debug("Repeating step {}.", self._step_nr)
 
         self._step_nr -= 1
 
         progress_task.step(-1)
 
+        if self._stop_requested:
+            return _TrainerState.STOP_REQUESTED
+
         return _TrainerState.DATA_LOAD
 
     def _run_post_step(self) -> _TrainerState:
-- 
2.43.0


From 19aa6511b27e80c140f92f3caa952f9706b70e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 020/133] fix: do not mistake a fully overflowed first epoch
 for an empty dataset

If the gradients of all steps of the first epoch overflowed, training
ended silently as if there was no data.
---
 src/fairseq2/trainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 723f3dc..11f3feb 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -331,6 +331,7 @@ class Trainer(Task):
         self._first_iter = True
         self._batches: list[Any] | None = None
         self._stop_requested = False
+        self._data_read = False
         self._num_batches_read = 0
         self._last_lrs = last_lrs
         self._checkpoint_save_hooks: dict[int, TrainStepHook] = OrderedDict()
@@ -479,11 +480,13 @@ class Trainer(Task):
                 self._batches = None
 
             if self._batches is not None:
+                self._data_read = True
+
                 return _TrainerState.STEP
 
             self._data_reader.reset()
 
-        if self._step_nr == 0:
+        if self._step_nr == 0 and not self._data_read:
             log.info("Dataset is empty or too small to train. Stopping training.")
 
             return _TrainerState.STOPPED
-- 
2.43.0


From ad6cd8062aa0ab22f20ad83e80f5aa402fae8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 021/133] fix: complete the pending checkpoint before stopping
 at the end of data

If the last step had already started to save its checkpoint, training
ended without waiting for it and the checkpoint was lost.
---
 src/fairseq2/trainer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 11f3feb..9a06af7 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -727,13 +727,7 @@ class Trainer(Task):
 
         self._stop_requested = True
 
-        should_save_checkpoint = self._should_save_checkpoint()
-        if should_save_checkpoint:
-            self._save_checkpoint(blocking=True)
-        else:
-            self._maybe_complete_checkpoint_save_operation()
-
-            self._maybe_complete_hg_export_operation()
+        self._maybe_save_checkpoint(blocking=True)
 
         return _TrainerState.STOPPED
 
@@ -741,6 +735,12 @@ class Trainer(Task):
         should_save_checkpoint = self._should_save_checkpoint()
         if should_save_checkpoint:
             self._save_checkpoint(blocking)
+        elif blocking:
+            # The state of this step might have been saved already, but the save
+            # operation might still be in progress.
+            self._maybe_complete_checkpoint_save_operation()
+
+            self._maybe_complete_hg_export_operation()
 
     def _should_save_checkpoint(self) -> bool:
         return self._should_do(
-- 
2.43.0


From e3109cf54997dbb55ff55af6b32b37a8c1c0ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 022/133] fix: save, publish, and validate a training step only
 once

The state of a step was saved (or published or validated) again if
training stopped right after the end of a data epoch at which it had
already been saved. Likewise the score of a step was lost if its
validation and checkpoint were due for different reasons.
---
 src/fairseq2/trainer.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 9a06af7..d54990f 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -334,6 +334,10 @@ class Trainer(Task):
         self._data_read = False
         self._num_batches_read = 0
         self._last_lrs = last_lrs
+        self._last_save_step_nr: int | None = None
+        self._last_publish_step_nr: int | None = None
+        self._last_validate_step_nr: int | None = None
+        self._last_score: float | None = None
         self._checkpoint_save_hooks: dict[int, TrainStepHook] = OrderedDict()
         self._hg_export_hooks: dict[int, TrainStepHook] = OrderedDict()
 
@@ -400,6 +404,8 @@ class Trainer(Task):
 
         log.info("Data reader state restored.")
 
+        self._last_save_step_nr = step_nr
+
         self._reset_non_total_metrics()
 
         self._gangs.root.barrier()
@@ -743,6 +749,9 @@ class Trainer(Task):
             self._maybe_complete_hg_export_operation()
 
     def _should_save_checkpoint(self) -> bool:
+        if self._last_save_step_nr == self._step_nr:
+            return False
+
         return self._should_do(
             self._checkpoint_after_n_steps,
             self._checkpoint_every_n_steps,
@@ -759,6 +768,12 @@ class Trainer(Task):
 
         self._maybe_complete_checkpoint_save_operation()
 
+        self._last_save_step_nr = step_nr
+
+        # If the model has already been validated at this step, its score could
+        # not be saved then.
+        score = self._last_score if self._last_validate_step_nr == step_nr else None
+
         def on_checkpoint_ready() -> None:
             if blocking:
                 log.info("Checkpoint prepared. Saving.")
@@ -766,6 +781,9 @@ class Trainer(Task):
                 log.info("Checkpoint prepared. Saving asynchronously.")
 
         def on_checkpoint_saved() -> None:
+            if score is not None:
+                self._checkpoint_manager.save_score(step_nr, score)
+
             args = TrainStepHookArgs(step_nr, data_epoch_nr)
 
             self._on_checkpoint_saved(args, blocking)
@@ -854,6 +872,9 @@ class Trainer(Task):
             self._publish_metrics()
 
     def _should_publish_metrics(self) -> bool:
+        if self._last_publish_step_nr == self._step_nr:
+            return False
+
         return self._should_do(
             self._publish_metrics_after_n_steps,
             self._publish_metrics_every_n_steps,
@@ -864,6 +885,8 @@ class Trainer(Task):
     def _publish_metrics(self) -> None:
         log.debug("Syncing train metrics.")
 
+        self._last_publish_step_nr = self._step_nr
+
         gangs = self._gangs
 
         try:
@@ -954,6 +977,9 @@ class Trainer(Task):
         if self._validator is NOOP_VALIDATOR:
             return False
 
+        if self._last_validate_step_nr == self._step_nr:
+            return False
+
         return self._should_do(
             self._validate_after_n_steps,
             self._validate_every_n_steps,
@@ -975,8 +1001,12 @@ class Trainer(Task):
         with self._model_dp_facade.summon_full_parameters():
             score = self._validator.run(self._step_nr)
 
+        self._last_validate_step_nr = self._step_nr
+
+        self._last_score = score
+
         if score is not None:
-            if self._should_save_checkpoint():
+            if self._last_save_step_nr == self._step_nr:
                 self._save_score(score)
 
         self._validator.reset()
-- 
2.43.0


From 9eea34b85016625df71573c6d2203908327ebf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 023/133] fix: restore the correct data epoch

A run that was interrupted within its last data epoch did not train any
further after a restart, and one that was restored from a checkpoint
saved at the end of a data epoch repeated the number of that epoch.
---
 src/fairseq2/trainer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index d54990f..4c4be80 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -417,7 +417,7 @@ class Trainer(Task):
                 return _TrainerState.STOPPED
 
         if self._max_num_data_epochs is not None:
-            if self._data_epoch_nr >= self._max_num_data_epochs:
+            if self._data_epoch_nr > self._max_num_data_epochs:
                 return _TrainerState.STOPPED
 
         return _TrainerState.DATA_LOAD
@@ -1201,9 +1201,19 @@ class _TrainerProxy(Stateful):
 
         base_wall_time = self._trainer._base_wall_time + wall_time
 
+        data_epoch_nr = self._trainer._data_epoch_nr
+
+        # At the end of a data epoch, the data reader is already positioned at
+        # the beginning of the next epoch.
+        if self._trainer._state in (
+            _TrainerState.END_OF_DATA_EPOCH,
+            _TrainerState.END_OF_DATA,
+        ):
+            data_epoch_nr += 1
+
         state_dict: dict[str, object] = {
             "_step_nr": self._trainer._step_nr,
-            "_data_epoch_nr": self._trainer._data_epoch_nr,
+            "_data_epoch_nr": data_epoch_nr,
             "_lr_scheduler": self._trainer._lr_scheduler.state_dict(),
             "_fp16_loss_scaler": self._trainer._fp16_loss_scaler.state_dict(),
             "_rng_bag": self._trainer._rng_bag.state_dict(),
-- 
2.43.0


From d913e843dc72c0113375f8f55d23ec55a631e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 024/133] fix: do not mistake the end of a restored epoch for
 an empty dataset

A run that was stopped before its first successful step, and restored
at the end of its data epoch, ended without training.
---
 src/fairseq2/trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 4c4be80..bf0e7df 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -406,6 +406,8 @@ class Trainer(Task):
 
         self._last_save_step_nr = step_nr
 
+        self._data_read = True
+
         self._reset_non_total_metrics()
 
         self._gangs.root.barrier()
-- 
2.43.0


From 7cddcf1ba6904abc87cff9c792fa87e7ecab0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 025/133] fix: reject an out-of-range rank in create_gang()

A rank equal to the size of the gang was accepted.
---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index feda04b..3fbd8d4 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -638,7 +638,7 @@ def _check_ranks(ranks: Sequence[int], gang_size: int) -> None:
         raise ValueError("Ranks in `ranks` must be unique.")
 
     for idx, rank in enumerate(ranks):
-        if rank < 0 or rank > gang_size:
+        if rank < 0 or rank >= gang_size:
             raise ValueError(
                 f"Rank at index {idx} in `ranks` must be greater than or equal to 0 and less than the size of the gang ({gang_size}), but is {rank} instead."
             )
-- 
2.43.0


From 75075a356d204554742c5308cc66ff16dc6b6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 026/133] fix: check the coordinator rank in all parallel gangs

Due to operator precedence a coordinator with a non-zero rank in its
tensor or pipeline parallel gang was accepted.
---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 3fbd8d4..798c5e1 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -689,7 +689,7 @@ class Gangs(Closable):
 
     def __post_init__(self) -> None:
         if self.root.rank == 0:
-            if self.dp.rank != 0 or self.tp.rank != 0 and self.pp.rank != 0:
+            if self.dp.rank != 0 or self.tp.rank != 0 or self.pp.rank != 0:
                 raise ValueError(
                     "Coordinator process of the root gang (i.e. `root.rank == 0`) must be rank 0 in all parallel gangs."
                 )
-- 
2.43.0


From 0d6834faed98174c17c5ed0e2171e6e4f3dc3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 027/133] fix: interpret the source rank of broadcasts relative
 to the gang

`source_rank` was passed as the rank in the default process group. In a
gang that does not start at global rank 0, a broadcast failed or
silently delivered nothing.
---
 src/fairseq2/gang.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 798c5e1..acc3880 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -579,15 +579,19 @@ class ProcessGroupGang(Gang):
 
     @override
     def broadcast(self, tensor: Tensor, source_rank: int = 0) -> None:
+        global_rank = dist.get_global_rank(self._pg, source_rank)
+
         try:
-            dist.broadcast(tensor, source_rank, group=self._pg)
+            dist.broadcast(tensor, global_rank, group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast")
 
     @override
     def broadcast_objects(self, objects: list[object], source_rank: int = 0) -> None:
+        global_rank = dist.get_global_rank(self._pg, source_rank)
+
         try:
-            dist.broadcast_object_list(objects, source_rank, group=self._pg)
+            dist.broadcast_object_list(objects, global_rank, group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast_object_list")
 
-- 
2.43.0


From 878e912a4fddb6c05c147ea37031e0e3d0fc9fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 028/133] fix: support the documented tensor shapes of
 all_gather() with Gloo

---
 src/fairseq2/gang.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index acc3880..a564407 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -564,7 +564,11 @@ class ProcessGroupGang(Gang):
     @override
     def all_gather(self, output_tensor: Tensor, input_tensor: Tensor) -> None:
         try:
-            dist.all_gather_into_tensor(output_tensor, input_tensor, group=self._pg)
+            # Not all process group backends support gathering into a stacked
+            # tensor; use flat views.
+            dist.all_gather_into_tensor(
+                output_tensor.view(-1), input_tensor.reshape(-1), group=self._pg
+            )
         except RuntimeError as ex:
             self._raise_op_failed(ex, "all_gather")
 
-- 
2.43.0


From 44d94a51419c4f358130a6a0d9bb85b119beb6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 029/133] fix: gather batch counts in the documented
 all_gather() shape

---
 src/fairseq2/datasets/data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/datasets/data_reader.py b/src/fairseq2/datasets/data_reader.py
index e565820..4fb32a7 100644
--- a/src/fairseq2/datasets/data_reader.py
+++ b/src/fairseq2/datasets/data_reader.py
@@ -173,7 +173,7 @@ class DataPipelineReader(DataReader[BatchT]):
 def _min_num_batches(num_batches: int, gang: Gang) -> int:
     all_num_batches = torch.zeros((gang.size,), device=gang.device, dtype=torch.int64)
 
-    num_batches_pt = to_tensor([num_batches], device=gang.device)
+    num_batches_pt = to_tensor(num_batches, device=gang.device)
 
     gang.all_gather(all_num_batches, num_batches_pt)
 
-- 
2.43.0


From d1f891b2648e5df9728fe82e0ac66791231cce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 030/133] fix: report gradient norms that are non-finite on
 some ranks only

---
 src/fairseq2/nn/utils/grad.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 465ae67..92dea0b 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -147,13 +147,15 @@ def check_grad_norms(local_norm: Tensor, gang: Gang, step_nr: int) -> None:
 
     gang.all_gather(norms, local_norm)
 
-    if all_finite := norms.isfinite().all():
+    finite = norms.isfinite()
+
+    if finite.all():
         delta = (norms - norms[0]).abs().max() / (norms[0] + 1e-6)
 
         if (delta < 1e-6).all():
             return
     else:
-        if all_finite.logical_not().all():  # Check if all Inf/NaN.
+        if finite.logical_not().all():  # Check if all Inf/NaN.
             return
 
     raise InconsistentGradNormError(step_nr, norms.tolist())
-- 
2.43.0


From cc02acb625c94ba45388f1fd527fe8bca62f10c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 031/133] fix: normalize gradients on all ranks even if some
 have no targets

---
 src/fairseq2/nn/utils/grad.py | 3 +++
 src/fairseq2/trainer.py       | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 92dea0b..9da1e2f 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -34,6 +34,9 @@ def normalize_grads(module: Module, gang: Gang, num_targets: int) -> None:
     """
     total_num_targets = all_sum(gang, num_targets)
 
+    # If there are no targets, there is nothing to normalize.
+    total_num_targets = total_num_targets.clamp(min=1)
+
     # Both DDP and FSDP divide gradients by the world size which we also undo.
     scale_grads(module, gang.size / total_num_targets)
 
diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index bf0e7df..5ee8454 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -563,7 +563,7 @@ class Trainer(Task):
 
         gangs = self._gangs
 
-        num_targets = 0
+        num_targets: int | None = None
 
         with self._compute_watch:
             with record_function(f"step_{step_nr}_setup"):
@@ -592,7 +592,7 @@ class Trainer(Task):
                         if num_batch_targets is None:
                             loss = loss / num_batches
                         else:
-                            num_targets += num_batch_targets
+                            num_targets = (num_targets or 0) + num_batch_targets
 
                         with record_function(f"step_{step_nr}_{batch_nr}_backward"):
                             self._fp16_loss_scaler.backward(loss)
@@ -607,7 +607,7 @@ class Trainer(Task):
             # processes and divides the gradients by it. This is needed when the
             # batches have varying sizes and we cannot normalize the loss before
             # the backward pass.
-            if num_targets > 0:
+            if num_targets is not None:
                 normalize_grads(self._model, gangs.dp, num_targets)
 
             self._fp16_loss_scaler.unscale_grads_(self._optimizer)
-- 
2.43.0


From 45ed7949158fdf1476edaf955513c86bb2406cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 032/133] fix: detect overflows with small fp16 loss scales

---
 src/fairseq2/optim/fp16_loss_scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/fp16_loss_scaler.py b/src/fairseq2/optim/fp16_loss_scaler.py
index 50cce15..5f7be66 100644
--- a/src/fairseq2/optim/fp16_loss_scaler.py
+++ b/src/fairseq2/optim/fp16_loss_scaler.py
@@ -215,7 +215,7 @@ class StandardFloat16LossScaler(Float16LossScaler):
 
         new_scale = self._grad_scaler.get_scale()
 
-        if math.isclose(new_scale, old_scale, rel_tol=1.3e-6, abs_tol=1e-5):
+        if math.isclose(new_scale, old_scale, rel_tol=1.3e-6):
             return Float16LossScaleResult(old_scale, new_scale)
 
         if new_scale > old_scale:
-- 
2.43.0


From 14574aaf2f806b55a674d317ef70bf6fc67b7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 033/133] fix: gradient accumulation without synchronization
 under FSDP2

---
 src/fairseq2/nn/fsdp/fsdp2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/nn/fsdp/fsdp2.py b/src/fairseq2/nn/fsdp/fsdp2.py
index cdcbf6d..2fa9a31 100644
--- a/src/fairseq2/nn/fsdp/fsdp2.py
+++ b/src/fairseq2/nn/fsdp/fsdp2.py
@@ -51,7 +51,7 @@ if TYPE_CHECKING:
 
         def reshard(self) -> None: ...
 
-        def set_requires_grad_sync(self, value: bool) -> None: ...
+        def set_requires_gradient_sync(self, value: bool) -> None: ...
 
 else:
     FSDP2Module: TypeAlias = FSDPModule
@@ -205,12 +205,12 @@ def fsdp2_load_local_state_dict(
 
 @contextmanager
 def fsdp2_no_sync(module: FSDP2Module) -> Iterator[None]:
-    module.set_requires_grad_sync(False)
+    module.set_requires_gradient_sync(False)
 
     try:
         yield
     finally:
-        module.set_requires_grad_sync(True)
+        module.set_requires_gradient_sync(True)
 
 
 @contextmanager
-- 
2.43.0


From 2839572cc916536c489f00aea0bc494dffb43268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:15 +0000
Subject: [PATCH 034/133] fix: leave the prompt out of the first step score of
 beam search

---
 src/fairseq2/generation/beam_search/generator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 70cb709..5db61de 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -774,15 +774,19 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Do not keep `seqs` in memory.
         seq = seq.clone()
 
-        # (S_out)
-        step_scores = self._step_scores[seq_idx, start_step:seq_len]
+        # (S)
+        step_scores = self._step_scores[seq_idx, :seq_len]
 
         # Similar to `seqs`, do not keep `step_scores` in memory.
         step_scores = step_scores.clone()
 
-        # Convert from cumulative to per-step scores.
+        # Convert from cumulative to per-step scores. Do this before leaving out
+        # the prompt; otherwise, the first step would contain its score.
         step_scores[1:] = step_scores[1:] - step_scores[:-1]
 
+        # (S) -> (S_out)
+        step_scores = step_scores[start_step:]
+
         if self._normalize_scores:
             # Since the first step's score is always 0, do not include it in
             # the normalization.
-- 
2.43.0


From fd1ccf6a646cdbf6343c7373516ae85f6bb0e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:15 +0000
Subject: [PATCH 035/133] fix: do not apply generation constraints to prompts
 in beam search

---
 .../generation/beam_search/generator.py       | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 5db61de..c2a1dfd 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -602,6 +602,13 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         if lprobs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # Prompts are scored as is. The constraints and penalties below apply to
+        # generated steps only.
+        if self._step_nr < self._max_prompt_len:
+            prompt_lprobs = lprobs.clone()
+        else:
+            prompt_lprobs = lprobs
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -635,7 +642,7 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             zip(lprobs.split(self._beam_sizes), self._step_scores.split(self._beam_sizes))  # fmt: skip
         ):
             beam_next_step = self._search_beam(
-                beam_idx, batch_offset, beam_lprobs, beam_step_scores
+                batch_offset, beam_lprobs, prompt_lprobs, beam_step_scores
             )
 
             # Bump the beam batch offset to the next beam.
@@ -683,7 +690,11 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         return True
 
     def _search_beam(
-        self, beam_idx: int, batch_offset: int, lprobs: Tensor, step_scores: Tensor
+        self,
+        batch_offset: int,
+        lprobs: Tensor,
+        prompt_lprobs: Tensor,
+        step_scores: Tensor,
     ) -> BeamStep | None:
         # Ignore the generated indices for the prompt sequences.
         if self._step_nr < self._max_prompt_len:
@@ -703,7 +714,10 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
                 # reach the end of the prompt.
                 vocab_idx = self._seqs[batch_offset, self._step_nr : self._step_nr + 1]
 
-                score = step_scores[0, self._step_nr - 1] + lprobs[0, vocab_idx]
+                score = (
+                    step_scores[0, self._step_nr - 1]
+                    + prompt_lprobs[batch_offset, vocab_idx]
+                )
 
                 return BeamStep(seq_idx, vocab_idx, score)
         else:
-- 
2.43.0


From 47bc632f186ec22b5b22935c49f0529beb7ea9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:15 +0000
Subject: [PATCH 036/133] fix: beam search with beams wider than half of the
 vocabulary

---
 src/fairseq2/generation/beam_search/algo.py      |  4 +++-
 src/fairseq2/generation/beam_search/generator.py | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/generation/beam_search/algo.py b/src/fairseq2/generation/beam_search/algo.py
index 31f407c..be9a22c 100644
--- a/src/fairseq2/generation/beam_search/algo.py
+++ b/src/fairseq2/generation/beam_search/algo.py
@@ -102,6 +102,8 @@ class StandardBeamSearchAlgorithm(BeamSearchAlgorithm):
         lprobs = lprobs.view(-1)
 
         # (2 x B)
-        top_scores, top_indices = torch.topk(lprobs, k=min(2 * beam_size, vocab_size))
+        top_scores, top_indices = torch.topk(
+            lprobs, k=min(2 * beam_size, lprobs.size(0))
+        )
 
         return BeamStep(top_indices // vocab_size, top_indices % vocab_size, top_scores)
diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index c2a1dfd..7e37ded 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -731,6 +731,13 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             self._beam_size, lprobs, step_scores[:, : self._step_nr]
         )
 
+        # Never continue with impossible candidates unless there is no other.
+        # (2 x B)
+        finite_mask = next_step.scores.isfinite()
+
+        if finite_mask.any():
+            next_step = next_step.masked_select(finite_mask)
+
         # Translate the sequence indices from beam to batch.
         next_step.seq_indices += batch_offset
 
@@ -761,6 +768,10 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
 
             next_step = next_step.masked_select(seq_mask)
 
+            # All possible sequences have reached EOS.
+            if len(next_step.seq_indices) == 0:
+                return None
+
         # We can have at most `beam_size` sequences in the beam.
         return next_step.first(self._beam_size)
 
-- 
2.43.0


From 15a2788fb171e244fc504ee3f16eda6a457627ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 037/133] fix: do not apply generation constraints to prompts
 in sampling

---
 src/fairseq2/generation/sampling/generator.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 754fbf7..8d22cf0 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -613,6 +613,13 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
         if probs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # Prompts are scored as is. The constraints and penalties below apply to
+        # generated steps only.
+        if self._step_nr < self._max_prompt_len:
+            prompt_probs = probs.clone()
+        else:
+            prompt_probs = probs
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -667,6 +674,14 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             # (N, 1)
             scores = torch.gather(probs, dim=-1, index=vocab_indices[:, None])
 
+            if self._step_nr < self._max_prompt_len:
+                # (N, 1)
+                prompt_scores = torch.gather(
+                    prompt_probs, dim=-1, index=vocab_indices[:, None]
+                )
+
+                scores = torch.where(mask[:, None], prompt_scores, scores)
+
             # Record the scores of the current step.
             self._step_scores[:, self._step_nr] = scores.squeeze(1)
 
-- 
2.43.0


From bfdecb1a038e067e929eb024c96f19695e2b3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 038/133] fix: negative probabilities with UNK penalty in
 sampling

---
 src/fairseq2/generation/sampling/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 8d22cf0..7fbdedf 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -636,6 +636,9 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             if self._unk_idx is not None:
                 probs[:, self._unk_idx] -= self._unk_penalty
 
+                # A probability cannot be negative.
+                probs[:, self._unk_idx].clamp_(min=0.0)
+
             # Never allow PAD.
             if self._pad_idx is not None:
                 probs[:, self._pad_idx] = 0
-- 
2.43.0


From e276764148077651304ce16443e3ba3b1e562efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 039/133] fix: multiple generations of single element prompts
 in seq2seq sampling

---
 src/fairseq2/generation/sampling/generator.py | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 7fbdedf..fc416c7 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -536,7 +536,10 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             # (P) -> (P x G)
             fan_out = repeat_interleave(fan_out, dim=0, repeat=self._num_gens)
 
-            self._reorder_state(fan_out)
+            self._fan_out_state(fan_out)
+
+    def _fan_out_state(self, fan_out: Tensor) -> None:
+        self._reorder_state(fan_out)
 
     def _prefill(self) -> None:
         chunk_begin = 0
@@ -900,6 +903,21 @@ class _SamplingSeq2SeqGeneratorOp(_AbstractSamplingSequenceGeneratorOp):
         self._source_seqs = source_seqs
         self._source_seqs_layout = source_seqs_layout
 
+    @override
+    def _fan_out_state(self, fan_out: Tensor) -> None:
+        super()._fan_out_state(fan_out)
+
+        # If there was nothing to prefill, the source sequences have not been
+        # encoded yet, and are not part of the state.
+        if self._min_prompt_len == 1:
+            seq_lens = self._source_seqs_layout.seq_lens
+
+            self._source_seqs = self._source_seqs.index_select(0, fan_out)
+
+            self._source_seqs_layout = BatchLayout.of(
+                self._source_seqs, [seq_lens[i] for i in fan_out.tolist()]
+            )
+
     @override
     def _decode(self, seqs: Tensor) -> Tensor:
         # We never pad during incremental decoding.
-- 
2.43.0


From cd487c87a9c1e675d6a8c207e298e376626396fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 040/133] fix: mask the other chunks in chunked attention

---
 .../models/transformer/attention_bias.py      | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7150de0..83abc8b 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -121,23 +121,21 @@ class ChunkedAttentionBias(AttentionBias):
     def create_bias_tensor(
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
-        if q_len != k_len:
-            raise ValueError(f"`q_len` and `k_len` must be equal: {q_len} != {k_len}")
+        # If there are more keys than queries, assume that the queries are at the
+        # end of the sequence.
+        # (S, 1)
+        q_pos = torch.arange(k_len - q_len, k_len, device=device).unsqueeze(1)
 
-        # (S, S)
-        block_pos = (
-            torch.arange(q_len, device=device).unsqueeze(0) // self.attn_chunk_size
-        ) - (torch.arange(q_len, device=device).unsqueeze(1) // self.attn_chunk_size)
-        token_pos = torch.arange(q_len, device=device).unsqueeze(0) - torch.arange(
-            q_len, device=device
-        ).unsqueeze(1)
+        # (1, S_kv)
+        k_pos = torch.arange(k_len, device=device).unsqueeze(0)
 
-        mask: Tensor = (block_pos == 0) & (token_pos <= 0)
+        block_pos = (k_pos // self.attn_chunk_size) - (q_pos // self.attn_chunk_size)
+        token_pos = k_pos - q_pos
 
-        mask = mask.to(dtype)
+        mask: Tensor = (block_pos == 0) & (token_pos <= 0)
 
-        # (S, S)
-        return mask
+        # (S, S_kv)
+        return mask.to(dtype).log_()
 
     def __repr__(self) -> str:
         return f"ChunkedAttentionBias(attn_chunk_size={self.attn_chunk_size})"
-- 
2.43.0


From 240403fc8a1bcd0e145ba7a4f9a0e6f8bfc59f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 041/133] fix: apply padding, windows, and chunks to attention
 of short queries

---
 .../models/transformer/attention_bias.py        | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 83abc8b..5dde8b4 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -76,7 +76,7 @@ class CausalAttentionBias(AttentionBias):
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
         if self.attn_window_len is None:
-            attn_window_len = q_len
+            attn_window_len = k_len
         else:
             attn_window_len = self.attn_window_len
 
@@ -188,7 +188,7 @@ class ALiBiAttentionBias(AttentionBias):
             causal_bias = _create_causal_bias_tensor(
                 q_len,
                 k_len,
-                q_len,
+                k_len,
                 from_bottom_right=True,
                 device=device,
                 dtype=dtype,
@@ -222,7 +222,7 @@ def _create_causal_bias_tensor(
 
     bias.tril_(diagonal=d)
 
-    if attn_window_len < q_len:
+    if attn_window_len < k_len:
         bias.triu_(diagonal=d - attn_window_len + 1)
 
     bias.log_()
@@ -379,8 +379,15 @@ def maybe_get_attention_bias_tensor(
             return None
 
     if isinstance(bias, CausalAttentionBias) or isinstance(bias, ChunkedAttentionBias):
-        if not q_layout.packed:
-            if q_layout.max_seq_len == 1:
+        # If there is a single query per sequence, it can attend to all keys
+        # unless they are padded or out of its reach.
+        if not q_layout.packed and q_layout.width == 1 and not k_layout.padded:
+            if isinstance(bias, CausalAttentionBias):
+                max_k_len = bias.attn_window_len
+            else:
+                max_k_len = bias.attn_chunk_size
+
+            if max_k_len is None or k_layout.width <= max_k_len:
                 return None
 
     return _get_attention_bias_tensor(  # type: ignore[no-any-return]
-- 
2.43.0


From 0226a96b546aad6a1f66313f42812d0a67008355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 042/133] fix: NaN attention of padding and ALiBi in padded
 batches

---
 .../models/transformer/attention_bias.py      | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 5dde8b4..ce272f9 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -299,25 +299,36 @@ def _create_block_bias_tensor(
         if q_begin == 0 and q_end == q_len and k_begin == 0 and k_end == k_len:
             return bias.create_bias_tensor(q_len, k_len, device, dtype)
 
-    tensor = torch.full((q_len, k_len), -torch.inf, device=device, dtype=dtype)
+    blocks = []
 
-    q_seq_ranges.append((q_len, q_len))
-    k_seq_ranges.append((k_len, k_len))
+    for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
+        block = bias.create_bias_tensor(
+            q_end - q_begin, k_end - k_begin, device, dtype
+        )
 
-    prev_q_end = 0
-    prev_k_end = 0
+        blocks.append(block)
 
-    for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
-        if prev_q_end != q_begin and prev_k_end != k_begin:  # pad
-            tensor[prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+    # A bias can have a leading head dimension.
+    # ([H], S, S_kv)
+    shape = blocks[0].shape[:-2] + (q_len, k_len)
 
-        if q_begin != q_end and k_begin != k_end:
-            tensor[q_begin:q_end, k_begin:k_end] = bias.create_bias_tensor(
-                q_end - q_begin, k_end - k_begin, device, dtype
-            )
+    tensor = torch.full(shape, -torch.inf, device=device, dtype=dtype)
+
+    for block, (q_begin, q_end), (k_begin, k_end) in zip(
+        blocks, q_seq_ranges, k_seq_ranges
+    ):
+        tensor[..., q_begin:q_end, k_begin:k_end] = block
+
+    q_pad_begin = q_seq_ranges[-1][1]
+    k_pad_begin = k_seq_ranges[-1][1]
+
+    # Let the padding of queries attend to the padding of keys; or, if there is
+    # none, to all keys. Otherwise, its attention weights would be NaN.
+    if q_pad_begin != q_len:
+        if k_pad_begin == k_len:
+            k_pad_begin = 0
 
-        prev_q_end = q_end
-        prev_k_end = k_end
+        tensor[..., q_pad_begin:, k_pad_begin:] = 0.0
 
     return tensor
 
-- 
2.43.0


From 982345144bc3cb7b3950e35cf51493ab57d628ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 043/133] fix: off by one attention window with FlashAttention

---
 src/fairseq2/models/transformer/sdpa/flash2.py | 3 ++-
 src/fairseq2/models/transformer/sdpa/flash3.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/sdpa/flash2.py b/src/fairseq2/models/transformer/sdpa/flash2.py
index 2b9b01b..c159b20 100644
--- a/src/fairseq2/models/transformer/sdpa/flash2.py
+++ b/src/fairseq2/models/transformer/sdpa/flash2.py
@@ -80,7 +80,8 @@ class Flash2SDPA(SDPA):
 
             attn_window_len = self.bias.attn_window_len
             if attn_window_len is not None:
-                left_window = attn_window_len
+                # The window of FlashAttention does not include the query itself.
+                left_window = attn_window_len - 1
             else:
                 left_window = -1
 
diff --git a/src/fairseq2/models/transformer/sdpa/flash3.py b/src/fairseq2/models/transformer/sdpa/flash3.py
index b337579..0d3e324 100644
--- a/src/fairseq2/models/transformer/sdpa/flash3.py
+++ b/src/fairseq2/models/transformer/sdpa/flash3.py
@@ -84,7 +84,8 @@ class Flash3SDPA(SDPA):
 
             attn_window_len = self.bias.attn_window_len
             if attn_window_len is not None:
-                lhs_window_size = attn_window_len
+                # The window of FlashAttention does not include the query itself.
+                lhs_window_size = attn_window_len - 1
             else:
                 lhs_window_size = -1
         else:
-- 
2.43.0


From 90fd0c97e7c964b9c1a69492c0da29f7089c8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:47 +0000
Subject: [PATCH 044/133] fix: NaN sinusoidal encodings with two dimensions

---
 src/fairseq2/nn/position_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/position_encoder.py b/src/fairseq2/nn/position_encoder.py
index 9ea280c..c3e8ae2 100644
--- a/src/fairseq2/nn/position_encoder.py
+++ b/src/fairseq2/nn/position_encoder.py
@@ -201,7 +201,7 @@ def _fill_sin_freq_table(
     indices = torch.arange(num_sin, device=steps.device, dtype=steps.dtype)
 
     # This is identical to tensor2tensor's implementation.
-    freqs = torch.exp(indices * -math.log(10000.0) / (num_sin - correction))
+    freqs = torch.exp(indices * -math.log(10000.0) / max(num_sin - correction, 1))
 
     # (S) x (E) -> (S, E)
     torch.outer(steps, freqs, out=l_half)
-- 
2.43.0


From 2d1f448bd222e0fccce603381e487318eba50c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 045/133] fix: padded batches in the S2T fbank subsampler

---
 .../s2t_transformer/feature_extractor.py      | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/fairseq2/models/s2t_transformer/feature_extractor.py b/src/fairseq2/models/s2t_transformer/feature_extractor.py
index 02c2ae9..049f22d 100644
--- a/src/fairseq2/models/s2t_transformer/feature_extractor.py
+++ b/src/fairseq2/models/s2t_transformer/feature_extractor.py
@@ -18,6 +18,7 @@ from fairseq2.data_type import DataType
 from fairseq2.device import Device
 from fairseq2.models.feature_extractor import SequenceFeatureExtractor
 from fairseq2.nn import BatchLayout
+from fairseq2.nn.utils.mask import apply_mask
 
 
 @final
@@ -98,36 +99,43 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
             :math:`N` is the batch size, :math:`S` is the number of frames, and
             :math:`C` is the number of channels.
         """
-        if seqs_layout.padded:
+        if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
-        # Apply the convolution along the temporal dimension (i.e. along the
-        # sequence).
-        # (N, S, C) -> (N, C, S)
-        seqs = seqs.transpose(1, 2)
+        for layer in self.layers:
+            if seqs_layout.padded:
+                padding_mask = seqs_layout.position_indices >= 0
 
-        # (N, C, S) -> (N, F, S_out)
-        seqs = self.layers(seqs)
+                # We have to ensure that the padded elements are correctly set to
+                # zero; otherwise, noise will leak into the feature maps.
+                seqs = apply_mask(seqs, padding_mask)
 
-        # (N, F, S_out) -> (N, S_out, F)
-        seqs = seqs.transpose(1, 2)
+            # Apply the convolution along the temporal dimension (i.e. along the
+            # sequence).
+            # (N, S, C) -> (N, C, S)
+            seqs = seqs.transpose(1, 2)
 
-        if seqs_layout.padded:
-            # Since we contracted the temporal dimension, we should re-compute
-            # the sequence lengths.
-            seq_lens = self._contract_seq_lens(seqs_layout.seq_lens)
-        else:
-            seq_lens = None
+            # (N, C, S) -> (N, F, S_out)
+            seqs = layer(seqs)
 
-        seqs_layout = BatchLayout.of(seqs, seq_lens)
+            # (N, F, S_out) -> (N, S_out, F)
+            seqs = seqs.transpose(1, 2)
+
+            if seqs_layout.padded:
+                # Since we contracted the temporal dimension, we should
+                # re-compute the sequence lengths.
+                seq_lens = self._contract_seq_lens(seqs_layout.seq_lens)
+            else:
+                seq_lens = None
+
+            seqs_layout = BatchLayout.of(seqs, seq_lens)
 
         return seqs, seqs_layout
 
     def _contract_seq_lens(self, seq_lens: Sequence[int]) -> list[int]:
         seq_lens = list(seq_lens)
 
-        for _ in range(len(self.layers)):
-            for i in range(len(seq_lens)):
-                seq_lens[i] = math.floor(((seq_lens[i] - 1) / self.STRIDE) + 1.0)
+        for i in range(len(seq_lens)):
+            seq_lens[i] = math.floor(((seq_lens[i] - 1) / self.STRIDE) + 1.0)
 
         return seq_lens
-- 
2.43.0


From 5ae523f3ab6fe6823690b141dbf034d41ece5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 046/133] fix: reorder static attention state when the batch
 size stays the same

---
 src/fairseq2/models/transformer/multihead_attention.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 07b6f66..33d8a90 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -952,9 +952,8 @@ class StaticAttentionState(AttentionState):
 
     @override
     def reorder(self, new_order: Tensor) -> None:
-        if new_order.size(0) != self._k.size(0):
-            self._k = self._k.index_select(0, new_order)
-            self._v = self._v.index_select(0, new_order)
+        self._k = self._k.index_select(0, new_order)
+        self._v = self._v.index_select(0, new_order)
 
     @override
     def size_bytes(self) -> int:
-- 
2.43.0


From 741b302ce48d8a5a2c0f40a5ba120e7916f30ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 047/133] fix: keys lost by multi-token steps of local
 attention state

---
 .../models/transformer/multihead_attention.py | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 33d8a90..fa777f7 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -822,31 +822,32 @@ class LocalAttentionState(AttentionState):
         self._k[:, :copy_len] = k[:, -copy_len:]
         self._v[:, :copy_len] = v[:, -copy_len:]
 
-        self._seq_len = seq_len
+        self._seq_len = copy_len
 
     @override
     def append(self, k: Tensor, v: Tensor) -> None:
         input_seq_len = k.size(1)
 
-        self._expand_kv(input_seq_len)
-
         if self._seq_len + input_seq_len > self._attn_window_len:
-            copy_len = min(input_seq_len, self._attn_window_len)
+            # Beside the keys and values of this step, we have to retain those
+            # that are within the attention window of the first query of it.
+            past_len = min(self._seq_len, self._attn_window_len - 1)
 
-            if copy_len == self._attn_window_len:
-                pos = 0
-            else:
-                self._k = torch.roll(self._k, shifts=-copy_len, dims=1)
-                self._v = torch.roll(self._v, shifts=-copy_len, dims=1)
+            beg, end = self._seq_len - past_len, self._seq_len
 
-                pos = self._attn_window_len - copy_len
-        else:
-            pos = self._seq_len
+            self._k = torch.cat([self._k[:, beg:end], k], dim=1)
+            self._v = torch.cat([self._v[:, beg:end], v], dim=1)
+
+            self._seq_len = past_len + input_seq_len
 
-            copy_len = input_seq_len
+            return
 
-        self._k[:, pos : pos + copy_len] = k[:, -copy_len:]
-        self._v[:, pos : pos + copy_len] = v[:, -copy_len:]
+        self._expand_kv(input_seq_len)
+
+        pos = self._seq_len
+
+        self._k[:, pos : pos + input_seq_len] = k
+        self._v[:, pos : pos + input_seq_len] = v
 
         self._seq_len += input_seq_len
 
-- 
2.43.0


From 8dc8f358252a8a45e2f34f6b5337ed3a4408a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 048/133] fix: incremental decoding with shared keys and values

---
 src/fairseq2/models/transformer/multihead_attention.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index fa777f7..b56709f 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -413,6 +413,11 @@ class StandardMultiheadAttention(MultiheadAttention):
         if pre_computed_kv is not None:
             # KV sharing: use pre-computed K/V from source layer
             k, v = pre_computed_kv
+
+            # In incremental decoding, the source layer also shares the keys and
+            # values of the past steps.
+            if not self.training and state_bag is not None:
+                keys_layout = BatchLayout.of(k)
         elif self.training or state_bag is None:
             # Full forward pass (training or no incremental state)
             # k: (N, S_kv, M) -> (N, S_kv, H_kv, K_h)
-- 
2.43.0


From 7446fa93d407f7a8207c0c7dc4a72108344fb5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 049/133] fix: padding leaking through stacked wav2vec 2.0
 position encoders

---
 src/fairseq2/models/wav2vec2/position_encoder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/wav2vec2/position_encoder.py b/src/fairseq2/models/wav2vec2/position_encoder.py
index 6dd6b40..32bc454 100644
--- a/src/fairseq2/models/wav2vec2/position_encoder.py
+++ b/src/fairseq2/models/wav2vec2/position_encoder.py
@@ -220,12 +220,20 @@ class Wav2Vec2StackedPositionEncoder(PositionEncoder):
             # We have to ensure that the padded elements are correctly set to
             # zero; otherwise, noise will leak into the feature maps.
             seqs = apply_mask(seqs, padding_mask)
+        else:
+            padding_mask = None
 
         # (N, S, E) -> (N, E, S)
         encodings = seqs.transpose(1, 2)
 
-        # (N, E, S) -> (N, E, S)
-        encodings = self.layers(encodings)
+        for layer in self.layers:
+            # (N, E, S) -> (N, E, S)
+            encodings = layer(encodings)
+
+            # The outputs of the convolution are not zero at padded positions
+            # anymore.
+            if padding_mask is not None:
+                encodings = encodings.where(padding_mask.unsqueeze(1), 0)
 
         # (N, E, S) -> (N, S, E)
         encodings = encodings.transpose(1, 2)
-- 
2.43.0


From 62e2e383057bfb79dbdc7c512f1833bc8c7be040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 050/133] fix: undocumented errors for damaged tensor files

---
 src/fairseq2/io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index 59c24c7..747a30e 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -141,9 +141,14 @@ class _TorchTensorFileLoader(TensorFileLoader):
                         options.map_location,  # type: ignore[arg-type]
                         weights_only=options.restrict,
                     )
-            except (RuntimeError, PickleError, EOFError) as ex:
+            except (OSError, MemoryError):
+                raise
+            except Exception as ex:  # Unpickling can fail with almost any error.
                 raise CorruptFileError(file) from ex
 
+        if not isinstance(data, dict):
+            raise CorruptFileError(file)
+
         return data
 
 
@@ -240,7 +245,7 @@ class _HuggingFaceSafetensorsLoader(SafetensorsLoader):
 
                 for key, tensor in tensors.items():
                     data[key] = tensor.to(device)
-        except (RuntimeError, PickleError, EOFError) as ex:
+        except (safetensors.SafetensorError, RuntimeError) as ex:
             raise CorruptFileError(file) from ex
 
         return data
-- 
2.43.0


From 9e871c878239e8a2d8cd81cdca238faa6532b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 051/133] fix: undetected inconsistent shards in model
 checkpoints

---
 src/fairseq2/model_checkpoint/basic.py       | 21 +++++---
 src/fairseq2/model_checkpoint/common.py      | 53 ++++++++++++++++----
 src/fairseq2/model_checkpoint/native.py      | 21 +++++---
 src/fairseq2/model_checkpoint/safetensors.py | 21 +++++---
 src/fairseq2/models/llama/checkpoint.py      | 21 +++++---
 5 files changed, 94 insertions(+), 43 deletions(-)

diff --git a/src/fairseq2/model_checkpoint/basic.py b/src/fairseq2/model_checkpoint/basic.py
index e533a50..34e422c 100644
--- a/src/fairseq2/model_checkpoint/basic.py
+++ b/src/fairseq2/model_checkpoint/basic.py
@@ -85,14 +85,19 @@ class _BasicModelCheckpointLoader(ModelCheckpointLoader):
 
             splits = [[tensor]]  # tp, dp
 
-            tensor = reshard_tensor(
-                key,
-                splits,
-                source_shard_sizes,
-                target_shard_sizes,
-                target_shard_ranks,
-                shard_dims,
-            )
+            try:
+                tensor = reshard_tensor(
+                    key,
+                    splits,
+                    source_shard_sizes,
+                    target_shard_sizes,
+                    target_shard_ranks,
+                    shard_dims,
+                )
+            except ValueError as ex:
+                message = f"{key} in {path} has inconsistent shards."
+
+                raise CorruptModelCheckpointError(path, message) from ex
 
             yield key, tensor
 
diff --git a/src/fairseq2/model_checkpoint/common.py b/src/fairseq2/model_checkpoint/common.py
index fa5ec3b..b059cc8 100644
--- a/src/fairseq2/model_checkpoint/common.py
+++ b/src/fairseq2/model_checkpoint/common.py
@@ -60,6 +60,9 @@ def reshard_tensor(
 
     Returns the resharded tensor for the target rank and configuration.
 
+    :raises ValueError: If the shards have inconsistent shapes, or cannot be
+        evenly resharded.
+
     .. code:: python
         :caption: Resharding from 2-way TP to 4-way TP
 
@@ -99,10 +102,7 @@ def reshard_tensor(
     if source_tp_size == target_tp_size:
         source_dp_splits = source_splits[target_tp_rank]
 
-        if source_dp_size == 1:
-            return source_dp_splits[0]
-
-        return torch.cat(source_dp_splits, dim=0)
+        return _unshard_data_parallel(key, source_dp_splits, source_dp_size)
 
     tp_dim = shard_dims.get(key, None)
 
@@ -110,30 +110,44 @@ def reshard_tensor(
     if tp_dim is None:
         source_dp_splits = source_splits[0]
 
-        if source_dp_size == 1:
-            return source_dp_splits[0]
+        return _unshard_data_parallel(key, source_dp_splits, source_dp_size)
 
-        return torch.cat(source_dp_splits, dim=0)
+    if len(source_splits) != source_tp_size:
+        raise ValueError(
+            f"`source_splits` must have {source_tp_size} tensor parallel shards of '{key}', but has {len(source_splits)} instead."
+        )
 
     tp_splits = []
 
     # Unshard the tensor over the source tensor parallel dimension.
     for source_dp_splits in source_splits:
-        if source_dp_size == 1:
-            tp_split = source_dp_splits[0]
-        else:
-            tp_split = torch.cat(source_dp_splits, dim=0)
+        tp_split = _unshard_data_parallel(key, source_dp_splits, source_dp_size)
 
         tp_splits.append(tp_split)
 
     # Reshard the tensor over the target parallel dimension.
 
+    if any(tp_dim >= tp_split.ndim for tp_split in tp_splits):
+        raise ValueError(
+            f"All tensors in `source_splits` must have more than {tp_dim} dimension(s), but '{key}' has less."
+        )
+
     # Source shard dimensions
     source_tp_dim_size = tp_splits[0].size(tp_dim)
 
+    if any(tp_split.size(tp_dim) != source_tp_dim_size for tp_split in tp_splits):
+        raise ValueError(
+            f"All tensor parallel shards in `source_splits` must have the same size at dimension {tp_dim}, but '{key}' has shards of different sizes."
+        )
+
     # Total unsharded dimension size
     tp_dim_size = source_tp_dim_size * source_tp_size
 
+    if tp_dim_size % target_tp_size != 0:
+        raise ValueError(
+            f"Size of '{key}' at dimension {tp_dim} must be a multiple of the target tensor parallel size ({target_tp_size}), but is {tp_dim_size} instead."
+        )
+
     # Target shard dimension
     target_tp_dim_size = tp_dim_size // target_tp_size
 
@@ -164,3 +178,20 @@ def reshard_tensor(
     return tensor.narrow(
         dim=tp_dim, start=first_target_idx - first_source_idx, length=target_tp_dim_size
     )
+
+
+def _unshard_data_parallel(
+    key: str, dp_splits: list[Tensor], source_dp_size: int
+) -> Tensor:
+    if not dp_splits:
+        raise ValueError(f"`source_splits` must have at least one shard of '{key}'.")
+
+    if source_dp_size == 1:
+        return dp_splits[0]
+
+    try:
+        return torch.cat(dp_splits, dim=0)
+    except RuntimeError as ex:
+        raise ValueError(
+            f"Data parallel shards of '{key}' in `source_splits` have inconsistent shapes."
+        ) from ex
diff --git a/src/fairseq2/model_checkpoint/native.py b/src/fairseq2/model_checkpoint/native.py
index f0e9fae..c8263a1 100644
--- a/src/fairseq2/model_checkpoint/native.py
+++ b/src/fairseq2/model_checkpoint/native.py
@@ -155,14 +155,19 @@ class _NativeModelCheckpointLoader(ModelCheckpointLoader):
 
                 memo.add(split_0)
 
-                tensor = reshard_tensor(
-                    key,
-                    splits,
-                    source_shard_sizes,
-                    target_shard_sizes,
-                    target_shard_ranks,
-                    shard_dims,
-                )
+                try:
+                    tensor = reshard_tensor(
+                        key,
+                        splits,
+                        source_shard_sizes,
+                        target_shard_sizes,
+                        target_shard_ranks,
+                        shard_dims,
+                    )
+                except ValueError as ex:
+                    message = f"{key} in {path} has inconsistent shards."
+
+                    raise CorruptModelCheckpointError(path, message) from ex
 
                 yield key, tensor
 
diff --git a/src/fairseq2/model_checkpoint/safetensors.py b/src/fairseq2/model_checkpoint/safetensors.py
index 3cd2531..25db0f0 100644
--- a/src/fairseq2/model_checkpoint/safetensors.py
+++ b/src/fairseq2/model_checkpoint/safetensors.py
@@ -109,14 +109,19 @@ class _SafetensorsCheckpointLoader(ModelCheckpointLoader):
 
             splits = [[tensor]]  # tp, dp
 
-            tensor = reshard_tensor(
-                key,
-                splits,
-                source_shard_sizes,
-                target_shard_sizes,
-                target_shard_ranks,
-                shard_dims,
-            )
+            try:
+                tensor = reshard_tensor(
+                    key,
+                    splits,
+                    source_shard_sizes,
+                    target_shard_sizes,
+                    target_shard_ranks,
+                    shard_dims,
+                )
+            except ValueError as ex:
+                message = f"{key} in {path} has inconsistent shards."
+
+                raise CorruptModelCheckpointError(path, message) from ex
 
             yield key, tensor
 
diff --git a/src/fairseq2/models/llama/checkpoint.py b/src/fairseq2/models/llama/checkpoint.py
index 6cae800..6d6abf2 100644
--- a/src/fairseq2/models/llama/checkpoint.py
+++ b/src/fairseq2/models/llama/checkpoint.py
@@ -126,14 +126,19 @@ class _LLaMACheckpointLoader(ModelCheckpointLoader):
 
             memo.add(split_0)
 
-            tensor = reshard_tensor(
-                key,
-                splits,
-                source_shard_sizes,
-                target_shard_sizes,
-                target_shard_ranks,
-                shard_dims,
-            )
+            try:
+                tensor = reshard_tensor(
+                    key,
+                    splits,
+                    source_shard_sizes,
+                    target_shard_sizes,
+                    target_shard_ranks,
+                    shard_dims,
+                )
+            except ValueError as ex:
+                message = f"{key} in {path} has inconsistent shards."
+
+                raise CorruptModelCheckpointError(path, message) from ex
 
             yield key, tensor
 
-- 
2.43.0


From c2cb04e155caa0e72b9025a70d05734d6dbf7833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 052/133] fix: loading tensor parallel OLMO checkpoints without
 tensor parallelism

---
 src/fairseq2/models/olmo/factory.py | 45 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/fairseq2/models/olmo/factory.py b/src/fairseq2/models/olmo/factory.py
index 0993b73..829359f 100644
--- a/src/fairseq2/models/olmo/factory.py
+++ b/src/fairseq2/models/olmo/factory.py
@@ -174,19 +174,31 @@ class OLMOFactory:
 
             _init_truncated_normal(embed.weight, bias=None, std=std)
 
-        embed = StandardEmbedding(
-            config.vocab_size, config.model_dim, config.pad_idx, init_fn=init_embed
-        )
-
         gangs = self._gangs
 
-        if gangs is not None and gangs.tp.size > 1:
-            if not config.shard_embed_dim:
-                return VocabShardedEmbedding.from_embedding(embed, gangs.tp)
+        if config.tied_embeddings and (gangs is None or gangs.tp.size == 1):
+            return StandardEmbedding(
+                config.vocab_size, config.model_dim, config.pad_idx, init_fn=init_embed
+            )
 
-            return ShardedEmbedding.from_embedding(embed, gangs.tp)
+        # Even if tensor parallelism is not enabled, the modules have to expose
+        # their shard dimensions for the resharding of checkpoints.
+        if not config.shard_embed_dim:
+            return VocabShardedEmbedding(
+                config.vocab_size,
+                config.model_dim,
+                config.pad_idx,
+                init_fn=init_embed,
+                gangs=gangs,
+            )
 
-        return embed
+        return ShardedEmbedding(
+            config.vocab_size,
+            config.model_dim,
+            config.pad_idx,
+            init_fn=init_embed,
+            gangs=gangs,
+        )
 
     def create_decoder_frontend(self, embed: Embedding) -> TransformerFrontend:
         config = self._config
@@ -407,17 +419,14 @@ class OLMOFactory:
 
             _init_truncated_normal(proj.weight, proj.bias, std=std)
 
-        final_proj = Linear(
-            config.model_dim, config.vocab_size, bias=False, init_fn=init_projection
+        return ColumnShardedLinear(
+            config.model_dim,
+            config.vocab_size,
+            bias=False,
+            init_fn=init_projection,
+            gangs=self._gangs,
         )
 
-        gangs = self._gangs
-
-        if gangs is not None and gangs.tp.size > 1:
-            return ColumnShardedLinear.from_linear(final_proj, gangs.tp)
-
-        return final_proj
-
     def create_layer_norm(self, dim: int | None = None) -> LayerNorm:
         """Create OLMORMSNorm.
         OLMO RMS norm differs from Llama RMS norm in operation order:
-- 
2.43.0


From 02e575f6bb8f68512cdb732fa72fb3d17404c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 053/133] fix: recognize fairseq wav2vec 2.0 checkpoints

The mask embedding of fairseq is a plain parameter named 'mask_emb' and a
single layer position encoder has no second index in its name.
---
 src/fairseq2/models/wav2vec2/interop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/wav2vec2/interop.py b/src/fairseq2/models/wav2vec2/interop.py
index 7dd9ebc..71b2cd5 100644
--- a/src/fairseq2/models/wav2vec2/interop.py
+++ b/src/fairseq2/models/wav2vec2/interop.py
@@ -25,7 +25,7 @@ def convert_wav2vec2_state_dict(
     except KeyError:
         pass
 
-    if "mask_emb.weight" in state_dict:  # fairseq
+    if "mask_emb" in state_dict:  # fairseq
         if config.encoder_config.norm_order == TransformerNormOrder.POST:
             # fmt: off
             state_dict["encoder_frontend.layer_norm.weight"] = state_dict["encoder.layer_norm.weight"]
@@ -44,7 +44,8 @@ def convert_wav2vec2_state_dict(
             r"^encoder\.layers\.([0-9]+)\.fc2\.":                 r"encoder.layers.\1.ffn.output_proj.",
             r"^encoder\.layers\.([0-9]+)\.final_layer_norm\.":    r"encoder.layers.\1.ffn_layer_norm.",
             r"^encoder\.embed_tokens\.":                          r"encoder_frontend.embed.",
-            r"^encoder\.pos_conv\.([0-4])\.0.":                   r"encoder_frontend.pos_encoder.layers.\1.conv.",
+            r"^encoder\.pos_conv\.([0-9]+)\.0\.":                 r"encoder_frontend.pos_encoder.layers.\1.conv.",
+            r"^encoder\.pos_conv\.0\.":                          r"encoder_frontend.pos_encoder.conv.",
             r"^feature_extractor\.conv_layers\.([0-9]+)\.0\.":    r"encoder_frontend.feature_extractor.layers.\1.conv.",
             r"^feature_extractor\.conv_layers\.([0-9]+)\.2\.1\.": r"encoder_frontend.feature_extractor.layers.\1.layer_norm.",
             r"^feature_extractor\.conv_layers\.0\.2\.":           r"encoder_frontend.feature_extractor.layers.0.group_norm.",
-- 
2.43.0


From 411808e2329a052e672aa7fff7f34f4c80acfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 054/133] fix: export all Gemma3n parameters to Hugging Face

'correct_output_scale' and 'per_dim_scale' are parameters in Transformers as
well; when dropped they are zero in the exported model. Layer types and inner
dimensions per layer now also match the fairseq2 model.
---
 src/fairseq2/models/gemma3n/interop.py | 32 +++++++++-----------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index 07800a6..a2298b3 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -11,7 +11,7 @@ from typing import Final
 import torch
 
 from fairseq2.models.family import HuggingFaceExport
-from fairseq2.models.gemma3n.config import Gemma3nConfig
+from fairseq2.models.gemma3n.config import Gemma3nConfig, is_global_layer
 from fairseq2.models.utils.checkpoint import (
     convert_state_dict,
     create_reverse_key_map,
@@ -36,9 +36,7 @@ _HG_KEY_MAP: Final = {
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.q_proj\.": r"audio_tower.encoder.layers.\1.self_attn.q_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.k_proj\.": r"audio_tower.encoder.layers.\1.self_attn.k_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.v_proj\.": r"audio_tower.encoder.layers.\1.self_attn.v_proj.",
-    # per_dim_scale: fs2 uses learned per-dim scaling; HF does not.
-    # Kept in key map for loading; filtered out during export in _convert_to_hg_state_dict.
-    r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.per_dim_scale$": r"audio_tower.encoder.layers.\1.self_attn.sdpa.per_dim_scale",
+    r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.per_dim_scale": r"audio_tower.encoder.layers.\1.self_attn.sdpa.per_dim_scale",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.relative_position_embedding\.pos_proj\.": r"audio_tower.encoder.layers.\1.self_attn.sdpa.pos_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.post\.": r"audio_tower.encoder.layers.\1.self_attn.output_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.post_norm\.": r"audio_tower.encoder.layers.\1.self_attn_post_norm.",
@@ -92,9 +90,7 @@ _HG_KEY_MAP: Final = {
     r"^model\.language_model\.layers\.([0-9]+)\.laurel\.post_laurel_norm\.":     r"decoder.layers.\1.laurel.post_laurel_norm.",
 
     # Decoder layers - AltUp (per-layer predict/correct)
-    # correct_output_scale: fs2 stores as param; HF derives from config.
-    # Kept in key map for loading; filtered out during export in _convert_to_hg_state_dict.
-    r"^model\.language_model\.layers\.([0-9]+)\.altup\.correct_output_scale$":   r"decoder.layers.\1.altup.correct_output_scale",
+    r"^model\.language_model\.layers\.([0-9]+)\.altup\.correct_output_scale":   r"decoder.layers.\1.altup.correct_output_scale",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.correction_coefs\.":      r"decoder.layers.\1.altup.correction_coefs.",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.prediction_coefs\.":      r"decoder.layers.\1.altup.prediction_coefs.",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.modality_router\.":       r"decoder.layers.\1.altup.modality_router.",
@@ -198,19 +194,6 @@ def _convert_to_hg_state_dict(
 ) -> dict[str, object]:
     state_dict = dict(state_dict)
 
-    # Remove keys that exist in fs2 but not in HF's model
-    _FS2_ONLY_SUFFIXES = (
-        # fs2 learned per-dim scaling; HF uses 1/sqrt(head_dim)
-        ".per_dim_scale",
-        # fs2 stores as param; HF derives from altup_correct_scale config
-        ".correct_output_scale",
-    )
-    state_dict = {
-        k: v
-        for k, v in state_dict.items()
-        if not any(k.endswith(s) for s in _FS2_ONLY_SUFFIXES)
-    }
-
     # Squeeze pointwise conv weights: fs2 Conv1d [N, M, 1] → HF Linear [N, M]
     for key, value in state_dict.items():
         if (
@@ -228,9 +211,16 @@ def _convert_to_hg_state_dict(
 def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
     from transformers import Gemma3nTextConfig
 
+    is_global = [is_global_layer(i, config.num_layers) for i in range(config.num_layers)]
+
     text_config = Gemma3nTextConfig(  # type: ignore[call-arg]
         hidden_size=config.model_dim,
-        intermediate_size=config.ffn_inner_dim,
+        intermediate_size=[
+            config.ffn_inner_dim if g else config.altup_hidden_dim for g in is_global
+        ],
+        layer_types=[
+            "full_attention" if g else "sliding_attention" for g in is_global
+        ],
         num_hidden_layers=config.num_layers,
         num_attention_heads=config.num_attn_heads,
         num_key_value_heads=config.num_key_value_heads,
-- 
2.43.0


From c94bf6e1dfa5ef439f13676bcfa2fc720dd002ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 055/133] fix: export LLaMA, Qwen, and OLMo configurations that
 Transformers accepts

Transformers 5 has no 'rope_theta' attribute and validates attributes that
depend on each other (e.g. layer types). Export the inner dimensionality,
head dimensionality, and layer types of the model instead of relying on
defaults.
---
 src/fairseq2/models/hg/converter.py  |  9 +++----
 src/fairseq2/models/llama/interop.py | 14 +++++++----
 src/fairseq2/models/olmo/interop.py  | 35 ++++++++++++++++++++++++----
 src/fairseq2/models/qwen/interop.py  | 12 +++++++++-
 4 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/src/fairseq2/models/hg/converter.py b/src/fairseq2/models/hg/converter.py
index e0ee5c5..fe38abc 100644
--- a/src/fairseq2/models/hg/converter.py
+++ b/src/fairseq2/models/hg/converter.py
@@ -171,15 +171,16 @@ def save_hugging_face_model(
             f"`transformers.{config.kls_name}` is expected to be a subclass of `{PretrainedConfig}`."
         )
 
-    native_config = config_kls()
+    default_config = config_kls()
 
-    for key, value in config.data.items():
-        if not hasattr(native_config, key):
+    for key in config.data.keys():
+        if not hasattr(default_config, key):
             raise ValueError(
                 f"`transformers.{config.kls_name}` does not have an attribute named {key}."
             )
 
-        setattr(native_config, key, value)
+    # Some attributes are derived from others in the constructor.
+    native_config = config_kls(**config.data)
 
     arch = config.arch
 
diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index b47048f..0d0dd99 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -129,14 +129,21 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
     def to_hg_config(self, config: object) -> HuggingFaceConfig:
         config = cast_config_type(config, LLaMAConfig)
 
-        multiplier = config.ffn_inner_dim_multiplier
+        # Same as in `LLaMAFactory.create_ffn()` and `GLUFeedForwardNetwork`.
+        ffn_inner_dim = int(config.ffn_inner_dim * config.ffn_inner_dim_multiplier)
+
+        if config.ffn_inner_dim_scale != 1.0:
+            ffn_inner_dim = int(ffn_inner_dim * config.ffn_inner_dim_scale)
 
         multiple_of = config.ffn_inner_dim_multiple_of
 
-        intermediate_size = multiple_of * ((int(multiplier * int(8 * config.model_dim / 3)) + multiple_of - 1) // multiple_of)  # fmt: skip
+        intermediate_size = multiple_of * ((ffn_inner_dim + multiple_of - 1) // multiple_of)  # fmt: skip
+
+        rope_scale: dict[str, object]
 
         if config.use_scaled_rope:
             rope_scale = {
+                "rope_theta": config.rope_theta,
                 "factor": config.rope_scale.factor,
                 "low_freq_factor": config.rope_scale.frequency_factors[0],
                 "high_freq_factor": config.rope_scale.frequency_factors[1],
@@ -144,7 +151,7 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
                 "rope_type": "llama3",
             }
         else:
-            rope_scale = None
+            rope_scale = {"rope_theta": config.rope_theta, "rope_type": "default"}
 
         if config.vocab_size == 32_000:  # LLaMA 1 and 2
             bos_idx = 1
@@ -165,7 +172,6 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
             "num_key_value_heads": config.num_key_value_heads,
             "rms_norm_eps": 1e-5,
             "rope_scaling": rope_scale,
-            "rope_theta": config.rope_theta,
             "tie_word_embeddings": config.tied_embeddings,
             "vocab_size": config.vocab_size,
             "head_dim": config.model_dim // config.num_attn_heads,
diff --git a/src/fairseq2/models/olmo/interop.py b/src/fairseq2/models/olmo/interop.py
index 2031525..f7cbc83 100644
--- a/src/fairseq2/models/olmo/interop.py
+++ b/src/fairseq2/models/olmo/interop.py
@@ -75,15 +75,23 @@ def convert_olmo_state_dict(
     return state_dict
 
 
+def _has_rope_per_layer_type() -> bool:
+    from transformers import Olmo3Config
+
+    rope_parameters = getattr(Olmo3Config(), "rope_parameters", None)
+
+    return isinstance(rope_parameters, dict) and "full_attention" in rope_parameters
+
+
 @final
 class _OLMOHuggingFaceConverter(HuggingFaceConverter):
     @override
     def to_hg_config(self, config: object) -> HuggingFaceConfig:
         config = cast_config_type(config, OLMOConfig)
 
-        is_olmo3 = (
-            config.sliding_window is not None or config.yarn_scale_config is not None
-        )
+        # Same as in `OLMOFactory`: without a sliding window, all layers use full
+        # attention and the standard rotary encoder.
+        is_olmo3 = config.sliding_window is not None
 
         data: dict[str, object] = {
             "hidden_size": config.model_dim,
@@ -117,13 +125,32 @@ class _OLMOHuggingFaceConverter(HuggingFaceConverter):
                     "beta_slow": yarn.beta_slow,
                     "mscale": yarn.mscale,
                     "mscale_all_dim": yarn.mscale_all_dim,
+                    "truncate": yarn.truncate,
                 }
 
             data["rope_scaling"] = rope_scaling
+
+            if _has_rope_per_layer_type():
+                # All layers share the same rotary encoder in fairseq2.
+                data["rope_parameters"] = {
+                    "sliding_attention": dict(rope_scaling),
+                    "full_attention": dict(rope_scaling),
+                }
+
             data["sliding_window"] = config.sliding_window
 
             if config.layer_types is not None:
-                data["layer_types"] = config.layer_types
+                data["layer_types"] = list(config.layer_types)
+            else:
+                # Same as in `OLMOFactory`.
+                data["layer_types"] = [
+                    (
+                        "full_attention"
+                        if (i + 1) % 4 == 0 or i == config.num_layers - 1
+                        else "sliding_attention"
+                    )
+                    for i in range(config.num_layers)
+                ]
 
             return HuggingFaceConfig(
                 data, kls_name="Olmo3Config", arch="Olmo3ForCausalLM"
diff --git a/src/fairseq2/models/qwen/interop.py b/src/fairseq2/models/qwen/interop.py
index 98da6d6..966f754 100644
--- a/src/fairseq2/models/qwen/interop.py
+++ b/src/fairseq2/models/qwen/interop.py
@@ -62,7 +62,11 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
             "num_attention_heads": config.num_attn_heads,
             "num_key_value_heads": config.num_key_value_heads,
             "intermediate_size": config.ffn_inner_dim,
-            "rope_theta": config.rope_theta,
+            "rms_norm_eps": 1e-6,
+            "rope_scaling": {
+                "rope_theta": config.rope_theta,
+                "rope_type": "default",
+            },
         }
 
         if config.qkv_proj_bias:
@@ -70,6 +74,12 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
                 data, kls_name="Qwen2Config", arch="Qwen2ForCausalLM"
             )
         else:
+            head_dim = config.head_dim
+            if head_dim is None:
+                head_dim = config.model_dim // config.num_attn_heads
+
+            data["head_dim"] = head_dim
+
             return HuggingFaceConfig(
                 data, kls_name="Qwen3Config", arch="Qwen3ForCausalLM"
             )
-- 
2.43.0


From 52a392db605c8f601a937431edf984a420e27d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 056/133] fix: cosine annealing with tensor learning rates and
 fractional cycle lengths

Scaling the learning rates of a cycle modified learning rate tensors in
place, so that the scale was applied again and again. Truncating the
length and offset of cycles separately moved the step past the end of
its cycle, which raised the learning rate again and skipped restarts.
---
 .../optim/lr_schedulers/cosine_annealing.py   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index b70444e..eb7ae0a 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -104,6 +104,10 @@ class CosineAnnealingLR(AbstractLRScheduler):
 
         curr_step = self.last_epoch - self.num_warmup_steps
 
+        cycle_len: float
+
+        cycle_pos: float
+
         # When each cycle has equal length, the computation is straightforward.
         if self.cycle_mul == 1.0:
             cycle_nr = curr_step // self.cycle_len
@@ -122,16 +126,25 @@ class CosineAnnealingLR(AbstractLRScheduler):
             # Solve the equation \sum_{i=0}^{n} len(cycle_i) + x = step for n.
             cycle_nr = int(math.log(1 - curr_step / self.cycle_len * (1 - mul), mul))
 
-            cycle_len = int(mul**cycle_nr * self.cycle_len)
+            cycle_len = mul**cycle_nr * self.cycle_len
 
             # Compute the sum of the lengths of the first `cycle_nr` cycles
             # (i.e. geometric series) which corresponds to the beginning offset
             # of the current cycle.
-            cycle_offset = int((1 - mul**cycle_nr) / (1 - mul) * self.cycle_len)
+            cycle_offset = (1 - mul**cycle_nr) / (1 - mul) * self.cycle_len
 
             # The position of the step within the cycle.
             cycle_pos = curr_step - cycle_offset
 
+            # If the step is the first one of a cycle, the logarithm might have
+            # been rounded down to the previous cycle.
+            if math.isclose(cycle_pos, cycle_len):
+                cycle_nr += 1
+
+                cycle_len *= mul
+
+                cycle_pos = 0.0
+
         lr_mul = self.lr_mul**cycle_nr
 
         c = math.cos(math.pi * cycle_pos / cycle_len)
@@ -139,8 +152,9 @@ class CosineAnnealingLR(AbstractLRScheduler):
         min_lrs, max_lrs = self.final_lrs, base_lrs
 
         def cycle_lr(min_lr: float | Tensor, max_lr: float | Tensor) -> float | Tensor:
-            min_lr *= lr_mul
-            max_lr *= lr_mul
+            # Do not use in-place operators here, the learning rates can be tensors.
+            min_lr = min_lr * lr_mul
+            max_lr = max_lr * lr_mul
 
             return min_lr + 0.5 * (max_lr - min_lr) * (1 + c)
 
-- 
2.43.0


From 446a09760b4b1aa2f56fce4bc1887d2de6f8d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 057/133] fix: reject cosine annealing without any step left
 after warmup

The length of its first cycle was zero (or negative), which failed with
a division by zero at the last training step.
---
 src/fairseq2/recipe/internal/lr_schedulers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/recipe/internal/lr_schedulers.py b/src/fairseq2/recipe/internal/lr_schedulers.py
index 7ff3fbe..feadcea 100644
--- a/src/fairseq2/recipe/internal/lr_schedulers.py
+++ b/src/fairseq2/recipe/internal/lr_schedulers.py
@@ -71,6 +71,11 @@ class _CosineAnnealingLRFactory:
                     f"`regime.num_steps` must be specified when `lr_scheduler` is '{COSINE_ANNEALING_LR}' and `lr_scheduler.config.cycle_len` is not specified."
                 )
 
+            if config.num_warmup_steps >= num_steps:
+                raise ValidationError(
+                    f"`num_warmup_steps` must be less than `regime.num_steps` ({num_steps}) when `cycle_len` is not specified, but is {config.num_warmup_steps} instead.", field="lr_scheduler.config"  # fmt: skip
+                )
+
             cycle_len = num_steps - config.num_warmup_steps
         else:
             cycle_len = config.cycle_len
-- 
2.43.0


From 75ef985bbd9ade8ac89193d4d3e0ba31c5447b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 058/133] fix: cycles reported for dependencies resolved from
 several threads

A provider that was still running in one thread was mistaken for a
dependency cycle by other threads, and singletons could be constructed
more than once.
---
 src/fairseq2/runtime/dependency.py | 63 +++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/fairseq2/runtime/dependency.py b/src/fairseq2/runtime/dependency.py
index d444a5b..6ea5429 100644
--- a/src/fairseq2/runtime/dependency.py
+++ b/src/fairseq2/runtime/dependency.py
@@ -11,6 +11,7 @@ from collections import defaultdict
 from collections.abc import Callable, Collection, Hashable, Iterable, Iterator, Sequence
 from functools import partial
 from inspect import Parameter, signature
+from threading import RLock
 from types import NoneType, UnionType
 from typing import (
     Any,
@@ -102,6 +103,7 @@ class DependencyContainer(DependencyResolver):
         self._keys: dict[type, list[Hashable]] = defaultdict(list)
         self._collection_container = DependencyCollectionContainer(self)
         self._frozen = False
+        self._lock = RLock()
 
     def register(
         self,
@@ -175,7 +177,7 @@ class DependencyContainer(DependencyResolver):
 
             raise DependencyNotFoundError(kls, key, msg)
 
-        obj = registration.get_instance(kls, self)
+        obj = registration.get_instance(kls, self, self._lock)
         if obj is None:
             if key is None:
                 msg = f"Registered provider for `{kls}` returned `None`."
@@ -305,7 +307,9 @@ class _DependencyCollection(Iterable[T]):
 
     def __iter__(self) -> Iterator[T]:
         for registration in self._registrations:
-            obj = registration.get_instance(self._kls, self._container)
+            obj = registration.get_instance(
+                self._kls, self._container, self._container._lock
+            )
             if obj is not None:
                 yield obj
 
@@ -330,28 +334,16 @@ class _DependencyRegistration:
         self.singleton = singleton
         self.in_call = False
 
-    def get_instance(self, kls: type[T], resolver: DependencyResolver) -> T | None:
-        if self.obj is _NOT_SET:
-            if self.in_call:
-                raise DependencyCycleError(cycle=[(kls, self.key)])
-
-            self.in_call = True
-
-            try:
-                obj = self.provider(resolver)
-            except DependencyCycleError as ex:
-                cycle = [(kls, self.key)]
-
-                cycle.extend(ex.cycle)
-
-                raise DependencyCycleError(cycle) from None
-            finally:
-                self.in_call = False
+    def get_instance(
+        self, kls: type[T], resolver: DependencyResolver, lock: RLock
+    ) -> T | None:
+        obj = self.obj
 
-            if self.singleton:
-                self.obj = obj
-        else:
-            obj = self.obj
+        if obj is _NOT_SET:
+            # A provider must be called by one thread at a time, otherwise a call
+            # in another thread would be mistaken for a cycle.
+            with lock:
+                obj = self._create_instance(kls, resolver)
 
         if obj is not None and not isinstance(obj, kls):
             raise InternalError(
@@ -360,6 +352,31 @@ class _DependencyRegistration:
 
         return obj
 
+    def _create_instance(self, kls: type, resolver: DependencyResolver) -> object:
+        if self.obj is not _NOT_SET:
+            return self.obj
+
+        if self.in_call:
+            raise DependencyCycleError(cycle=[(kls, self.key)])
+
+        self.in_call = True
+
+        try:
+            obj = self.provider(resolver)
+        except DependencyCycleError as ex:
+            cycle = [(kls, self.key)]
+
+            cycle.extend(ex.cycle)
+
+            raise DependencyCycleError(cycle) from None
+        finally:
+            self.in_call = False
+
+        if self.singleton:
+            self.obj = obj
+
+        return obj
+
 
 @final
 class DependencyLookup(Lookup[T]):
-- 
2.43.0


From f7c23c09cb0e91b4d2d4aa6e278d3db7448f0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 059/133] fix: run directories shared by different
 configurations

---
 src/fairseq2/recipe/internal/sweep_tag.py | 60 ++++++++++++++++++++---
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/fairseq2/recipe/internal/sweep_tag.py b/src/fairseq2/recipe/internal/sweep_tag.py
index b062544..7c71f68 100644
--- a/src/fairseq2/recipe/internal/sweep_tag.py
+++ b/src/fairseq2/recipe/internal/sweep_tag.py
@@ -66,7 +66,7 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
         self._collect_tags(unstructured_config, tags, path="")
 
-        tags["hash"] = self._generate_hash(tags)
+        tags["hash"] = self._generate_hash(tags, unstructured_config)
 
         return self._safe_format(sweep_format, tags)
 
@@ -126,18 +126,62 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
         return h[:8]
 
-    @staticmethod
-    def _generate_hash(tags: dict[str, str]) -> str:
+    @classmethod
+    def _generate_hash(cls, tags: dict[str, str], config: object) -> str:
         algo = sha1()
 
         for k, v in sorted(tags.items()):
             algo.update(k.encode("utf-8"))
             algo.update(v.encode("utf-8"))
 
+        # Tags hold a simplified form of some values (e.g. strings without their
+        # non-word characters). If so, the tags of different configurations can
+        # be the same and we have to include the actual values in the hash.
+        if not cls._has_exact_tags(config):
+            algo.update(cls._serialize(config).encode("utf-8"))
+
         h = algo.hexdigest()
 
         return h[:8]
 
+    @classmethod
+    def _has_exact_tags(cls, obj: object) -> bool:
+        if isinstance(obj, str):
+            # Must not be mistaken for a boolean, a number, or `None`.
+            if obj in ("none", "t", "f", "nan", "inf"):
+                return False
+
+            return len(obj) < 16 and re.fullmatch(r"[^\W\d][-\w]*", obj) is not None
+
+        if isinstance(obj, list):
+            return len(obj) > 0 and all(cls._has_exact_tags(e) for e in obj)
+
+        if isinstance(obj, dict):
+            if len(obj) == 0:
+                return False
+
+            for key, value in obj.items():
+                # Must not be mistaken for the key of a nested object.
+                if not isinstance(key, str) or re.fullmatch(r"\w+", key) is None:
+                    return False
+
+                if not cls._has_exact_tags(value):
+                    return False
+
+        return True
+
+    @classmethod
+    def _serialize(cls, obj: object) -> str:
+        if isinstance(obj, list):
+            return f"[{','.join(cls._serialize(e) for e in obj)}]"
+
+        if isinstance(obj, dict):
+            items = [f"{cls._serialize(k)}:{cls._serialize(v)}" for k, v in obj.items()]
+
+            return f"{{{','.join(sorted(items))}}}"
+
+        return repr(obj)
+
     def _safe_format(self, sweep_format: str, tags: dict[str, str]) -> str:
         class State(Enum):
             LITERAL = 0
@@ -195,10 +239,12 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
                 case State.CLOSING_BRACE:
                     state = State.LITERAL
 
-                    if c == "}":  # escape
-                        output.append("}")
-                    else:
-                        output.append(c)
+                    if c != "}":
+                        msg = "`sweep_format` must have matching opening and closing braces."
+
+                        raise ValidationError(msg, field="common")
+
+                    output.append("}")  # escape
 
         if state != State.LITERAL:
             msg = "`sweep_format` must have matching opening and closing braces."
-- 
2.43.0


From ba66016b7fa85783ae99b9711ee8c9a52c2e6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 060/133] fix: apply command line overrides in order

---
 src/fairseq2/utils/argparse.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/fairseq2/utils/argparse.py b/src/fairseq2/utils/argparse.py
index 0ab194f..c0d9987 100644
--- a/src/fairseq2/utils/argparse.py
+++ b/src/fairseq2/utils/argparse.py
@@ -47,12 +47,17 @@ class ConfigAction(Action):
         values: Any,
         option_string: str | None = None,
     ) -> None:
-        data: dict[str, Any] = {}
+        items = getattr(namespace, self.dest, None)
+        if items is None:
+            items = []
 
         def get_parent_node(path: str) -> tuple[dict[str, Any], str]:
             keys = path.split(".")
 
-            node = data
+            # Each item is a separate override, so that they apply in order.
+            node: dict[str, Any] = {}
+
+            items.append(node)
 
             for key in keys[:-1]:
                 child_node = node.get(key)
@@ -115,12 +120,6 @@ class ConfigAction(Action):
 
                 set_keys[key] = parsed_value
 
-        items = getattr(namespace, self.dest, None)
-        if items is None:
-            items = []
-
-        items.append(data)
-
         setattr(namespace, self.dest, items)
 
     @staticmethod
-- 
2.43.0


From cafa825d858bccfc91b637be6c750c283246f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 061/133] fix: unstructure sets in the same order in every
 process

---
 src/fairseq2/utils/structured.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 95bf7f9..ee0cae4 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -599,4 +599,12 @@ class StandardValueConverter(ValueConverter):
     def _unstructure_set(self, obj: object) -> list[object]:
         s = cast(set[object], obj)
 
-        return [self.unstructure(e) for e in s]
+        output = [self.unstructure(e) for e in s]
+
+        # The iteration order of a set can differ between processes.
+        try:
+            output.sort()  # type: ignore[call-overload]
+        except TypeError:
+            output.sort(key=repr)
+
+        return output
-- 
2.43.0


From 565785cd378ccdc8cc2df46aedcd4e1a376d2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 062/133] fix: values altered or rejected while structuring

---
 src/fairseq2/utils/structured.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index ee0cae4..bed61a9 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -144,10 +144,16 @@ class StandardValueConverter(ValueConverter):
             return obj
 
         try:
-            return kls(obj)
-        except (TypeError, ValueError) as ex:
+            value = kls(obj)
+        except (TypeError, ValueError, OverflowError) as ex:
             raise StructureError(f"`obj` cannot be parsed as `{kls}`.") from ex
 
+        # A real number must not be truncated to an integer.
+        if isinstance(obj, float) and value != obj:
+            raise StructureError(f"`obj` cannot be represented as `{kls}`.")
+
+        return value
+
     def _structure_identity(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> object:
@@ -325,7 +331,7 @@ class StandardValueConverter(ValueConverter):
     def _structure_list(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> list[object]:
-        if isinstance(obj, Sequence):
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             if len(type_args) != 1:
                 raise ValueError(
                     f"`target_type` must have an element type expression for `{origin_type}`."
@@ -395,7 +401,7 @@ class StandardValueConverter(ValueConverter):
                     "One of the set elements cannot be structured."
                 ) from ex
 
-        if isinstance(obj, Sequence):
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             if len(type_args) != 1:
                 raise ValueError(
                     f"`target_type` must have an element type expression for `{origin_type}`."
@@ -429,7 +435,7 @@ class StandardValueConverter(ValueConverter):
     def _structure_tuple(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> tuple[object, ...]:
-        if isinstance(obj, Sequence):
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             num_args = len(type_args)
 
             if num_args == 0:
@@ -468,14 +474,18 @@ class StandardValueConverter(ValueConverter):
     def _structure_union(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> object:
-        is_optional = len(type_args) == 2 and NoneType in type_args
-
-        if is_optional and obj is None:
+        # Do not parse a value that is already of one of the types.
+        if type(obj) in type_args:
             return obj
 
+        is_optional = len(type_args) == 2 and NoneType in type_args
+
         errors = []
 
         for target_type in type_args:
+            if is_optional and target_type is NoneType:
+                continue
+
             try:
                 return self.structure(obj, target_type)
             except StructureError as ex:
-- 
2.43.0


From acfbc41ef468edbf9d424c8dc4580a99e9ad2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 063/133] fix: convert URIs of paths with spaces or other
 special characters back

---
 src/fairseq2/utils/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/uri.py b/src/fairseq2/utils/uri.py
index 685e333..307882a 100644
--- a/src/fairseq2/utils/uri.py
+++ b/src/fairseq2/utils/uri.py
@@ -8,7 +8,7 @@ from __future__ import annotations
 
 from pathlib import Path
 from typing import final
-from urllib.parse import ParseResult, urlparse, urlunparse
+from urllib.parse import ParseResult, unquote, urlparse, urlunparse
 
 from fairseq2.error import InternalError, NotSupportedError
 
@@ -81,7 +81,7 @@ class Uri:
 
         s = str(self)
 
-        return Path(s[7:])
+        return Path(unquote(s[7:]))
 
     def __str__(self) -> str:
         return urlunparse(self._result)
-- 
2.43.0


From e22d4b236c8598315c82485fb06e668715f05d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 064/133] fix: infinite recursion for cyclic base assets

---
 src/fairseq2/assets/store.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index d861107..2b7d1bc 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -116,8 +116,15 @@ class StandardAssetStore(AssetStore):
         return self._do_retrieve_card(name, name, envs)
 
     def _do_retrieve_card(
-        self, name: str, leaf_name: str, envs: list[str]
+        self, name: str, leaf_name: str, envs: list[str], derived: tuple[str, ...] = ()
     ) -> AssetCard | None:
+        if name in derived:
+            s = " -> ".join(derived + (name,))
+
+            msg = f"{leaf_name} asset card has a cyclic base asset: {s}."
+
+            raise AssetCardError(leaf_name, msg)
+
         metadata = self._maybe_get_metadata(f"{name}@")
         if metadata is None:
             if name != leaf_name:
@@ -139,7 +146,9 @@ class StandardAssetStore(AssetStore):
         if not isinstance(base_name, str):
             base_card = None
         else:
-            base_card = self._do_retrieve_card(base_name, leaf_name, envs)
+            base_card = self._do_retrieve_card(
+                base_name, leaf_name, envs, derived + (name,)
+            )
 
         return AssetCard(name, metadata, base_card)
 
-- 
2.43.0


From b240c6c72a4a8cc7d4b3053709c81fe8c0ae709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 065/133] fix: resolve relative paths of asset cards against
 the file that has them

---
 src/fairseq2/assets/card.py  | 24 ++++++++++++++++++++----
 src/fairseq2/assets/store.py |  8 +++++++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/assets/card.py b/src/fairseq2/assets/card.py
index 3bf6c92..92df9a9 100644
--- a/src/fairseq2/assets/card.py
+++ b/src/fairseq2/assets/card.py
@@ -25,11 +25,20 @@ class AssetCard:
     """Holds information about an asset."""
 
     def __init__(
-        self, name: str, metadata: Mapping[str, object], base: AssetCard | None = None
+        self,
+        name: str,
+        metadata: Mapping[str, object],
+        base: AssetCard | None = None,
+        base_paths: Mapping[str, object] | None = None,
     ) -> None:
+        """
+        :param base_paths: The base path of each field. If ``None``, or if a
+            field is missing, ``__base_path__`` in ``metadata`` will be used.
+        """
         self._name = name
         self._metadata = metadata
         self._base = base
+        self._base_paths = base_paths if base_paths is not None else {}
 
     def field(self, name: str) -> AssetCardField:
         field = self.maybe_get_field(name)
@@ -49,7 +58,11 @@ class AssetCard:
             except KeyError:
                 pass
             else:
-                return AssetCardField(name, self, value)
+                base_path = card.metadata.get("__base_path__")
+
+                base_path = card._base_paths.get(name, base_path)
+
+                return AssetCardField(name, self, value, base_path)
 
             card = card.base
 
@@ -84,10 +97,13 @@ class AssetCard:
 
 @final
 class AssetCardField:
-    def __init__(self, name: str, card: AssetCard, value: object) -> None:
+    def __init__(
+        self, name: str, card: AssetCard, value: object, base_path: object = None
+    ) -> None:
         self._name = name
         self._card = card
         self._value = value
+        self._base_path = base_path
 
     @property
     def value(self) -> object:
@@ -116,7 +132,7 @@ class AssetCardField:
             raise AssetCardError(self._card.name, msg) from None
 
         if not path.is_absolute():
-            base_path = self._card.metadata.get("__base_path__")
+            base_path = self._base_path
             if not isinstance(base_path, Path):
                 msg = f"{self._name} field of the {self._card.name} asset card is a relative pathname and cannot be converted to a URI."
 
diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index 2b7d1bc..f2cb4b6 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -134,9 +134,15 @@ class StandardAssetStore(AssetStore):
 
             return None
 
+        base_paths = dict.fromkeys(metadata, metadata.get("__base_path__"))
+
         for env in envs:
             env_metadata = self._maybe_get_metadata(f"{name}@{env}")
             if env_metadata is not None:
+                env_base_path = env_metadata.get("__base_path__")
+
+                base_paths.update(dict.fromkeys(env_metadata, env_base_path))
+
                 metadata.update(env_metadata)
 
                 break
@@ -150,7 +156,7 @@ class StandardAssetStore(AssetStore):
                 base_name, leaf_name, envs, derived + (name,)
             )
 
-        return AssetCard(name, metadata, base_card)
+        return AssetCard(name, metadata, base_card, base_paths)
 
     def _maybe_get_metadata(self, name: str) -> dict[str, object] | None:
         for provider in self._metadata_providers:
-- 
2.43.0


From cdfaec53f76194f1aad1072608ae80479ac3c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 066/133] fix: base names and input of in-memory asset metadata

---
 src/fairseq2/assets/metadata_provider.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/assets/metadata_provider.py b/src/fairseq2/assets/metadata_provider.py
index c4e46c5..8b9bac7 100644
--- a/src/fairseq2/assets/metadata_provider.py
+++ b/src/fairseq2/assets/metadata_provider.py
@@ -242,6 +242,9 @@ def load_in_memory_asset_metadata(
     metadata = {}
 
     for idx, asset_metadata in enumerate(entries):
+        # Do not modify the dictionary of the caller.
+        asset_metadata = dict(asset_metadata)
+
         name = asset_metadata.pop("name", None)
         if not name:
             msg = f"Asset at index {idx} in `metadata` must have a name."
@@ -277,6 +280,8 @@ def load_in_memory_asset_metadata(
 
                 raise AssetMetadataError(source, msg)
 
+            asset_metadata["base"] = base_name
+
         metadata[name] = asset_metadata
 
     return CachedAssetMetadataProvider(source, metadata)
-- 
2.43.0


From 3ee3b10b49ef12fbc8eccc9e46a16be65074e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 067/133] fix: partial assets served after an interrupted
 download, extraction, or removal

---
 src/fairseq2/assets/download_manager.py | 44 +++++++++++++++++--------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 1cfd12b..342f9f6 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -550,24 +550,27 @@ class _AssetDownloadOperation:
     def _clean_cached_asset(self) -> None:
         asset_dir = self._asset_dir
 
-        try:
-            self._file_system.remove_directory(asset_dir)
-        except FileNotFoundError:
-            pass
+        self._discard_directory(asset_dir)
 
-        download_dir = asset_dir.with_suffix(".download")
+        self._discard_directory(asset_dir.with_suffix(".download"))
 
-        try:
-            self._file_system.remove_directory(download_dir)
-        except FileNotFoundError:
-            pass
+        self._discard_directory(asset_dir.with_suffix(".download.tmp"))
 
-        tmp_download_dir = asset_dir.with_suffix(".download.tmp")
+    def _discard_directory(self, path: Path) -> None:
+        if not self._file_system.exists(path):
+            return
 
-        try:
-            self._file_system.remove_directory(tmp_download_dir)
-        except FileNotFoundError:
-            pass
+        # Removing a directory is not an atomic operation. Move it away first to
+        # ensure that the remains of an interrupted removal are never mistaken
+        # for a cached asset.
+        trash_dir = self._asset_dir.with_suffix(".trash")
+
+        if self._file_system.exists(trash_dir):
+            self._file_system.remove_directory(trash_dir)
+
+        self._file_system.move(path, trash_dir)
+
+        self._file_system.remove_directory(trash_dir)
 
     def _download_asset(self) -> None:
         asset_dir = self._asset_dir
@@ -585,6 +588,9 @@ class _AssetDownloadOperation:
         with ExitStack() as exit_stack:
             tmp_download_dir = asset_dir.with_suffix(".download.tmp")
 
+            # Might hold the remains of an interrupted download.
+            self._discard_directory(tmp_download_dir)
+
             self._file_system.make_directory(tmp_download_dir)
 
             def remove_tmp_dir() -> None:
@@ -764,6 +770,16 @@ class _AssetDownloadOperation:
     def _retrieve_asset_path(self) -> Path:
         asset_dir = self._asset_dir
 
+        if self._local_only:
+            # If the download directory still has the downloaded file, it means
+            # the asset has not been (fully) extracted yet.
+            download_dir = asset_dir.with_suffix(".download")
+
+            if self._file_system.exists(download_dir) and any(download_dir.iterdir()):
+                self._raise_download_error(
+                    "Asset is not cached, but `local_only` is `True`."
+                )
+
         if not self._file_system.exists(asset_dir):
             if self._local_only:
                 reason = "Asset is not cached, but `local_only` is `True`."
-- 
2.43.0


From 02e1f32f509f87ca20e04dfa51c856d74f8e3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 068/133] fix: downloaded files written outside the asset cache

---
 src/fairseq2/assets/download_manager.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 342f9f6..5816bb3 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -12,7 +12,7 @@ from collections.abc import Generator, Sequence, Set
 from contextlib import ExitStack, contextmanager
 from hashlib import sha1
 from pathlib import Path
-from tarfile import TarFile, is_tarfile
+from tarfile import TarError, TarFile, is_tarfile
 from tempfile import NamedTemporaryFile
 from typing import Final, final
 from urllib.error import HTTPError, URLError
@@ -694,6 +694,13 @@ class _AssetDownloadOperation:
                 except ValueError:
                     filename = "asset"
 
+            # The filename is specified by the server, it must not lead out of
+            # the download directory.
+            filename = re.sub(r"^.*[/\\]|\0", "", filename, flags=re.DOTALL).strip()
+
+            if filename in ("", ".", ".."):
+                filename = "asset"
+
             download_file = tmp_download_dir.joinpath(filename)
 
             self._file_system.move(tmp_file, download_file)
@@ -750,8 +757,8 @@ class _AssetDownloadOperation:
                 with task:
                     try:
                         with TarFile(download_file) as tar_fp:
-                            tar_fp.extractall(path=asset_dir)
-                    except (KeyError, OSError, EOFError) as ex:
+                            tar_fp.extractall(path=asset_dir, filter="data")
+                    except (KeyError, OSError, EOFError, TarError) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
-- 
2.43.0


From 6b26b9ae86272fc263b2f054f6911f6813b7d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 069/133] fix: extraction of compressed tar archives

---
 src/fairseq2/assets/download_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 5816bb3..f4a62c0 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -756,7 +756,7 @@ class _AssetDownloadOperation:
 
                 with task:
                     try:
-                        with TarFile(download_file) as tar_fp:
+                        with TarFile.open(download_file) as tar_fp:
                             tar_fp.extractall(path=asset_dir, filter="data")
                     except (KeyError, OSError, EOFError, TarError) as ex:
                         self._raise_download_error(
-- 
2.43.0


From 774f422c540d0369be4d1e7f7b86e8414f6a07db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 070/133] fix: file names of downloads with several
 Content-Disposition parameters

---
 src/fairseq2/assets/download_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index f4a62c0..7678b4b 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -684,9 +684,9 @@ class _AssetDownloadOperation:
 
             content_disposition = response.headers.get("Content-Disposition")
             if content_disposition is not None:
-                match = re.search(r"filename=\"?([^\"\n]+)\"?", content_disposition)
+                match = re.search(r"filename=(?:\"([^\"\n]+)\"|([^\";\n]+))", content_disposition)
                 if match:
-                    filename = match.group(1)
+                    filename = match.group(1) or match.group(2)
 
             if filename is None:
                 try:
-- 
2.43.0


From 9133bdb3ba2336de07cc0ee958ed8290033df20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 071/133] fix: report invalid responses and archives as
 download errors

---
 src/fairseq2/assets/download_manager.py | 32 +++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 7678b4b..253ec0d 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -11,6 +11,8 @@ from abc import ABC, abstractmethod
 from collections.abc import Generator, Sequence, Set
 from contextlib import ExitStack, contextmanager
 from hashlib import sha1
+from http.client import HTTPException
+from lzma import LZMAError
 from pathlib import Path
 from tarfile import TarError, TarFile, is_tarfile
 from tempfile import NamedTemporaryFile
@@ -19,6 +21,7 @@ from urllib.error import HTTPError, URLError
 from urllib.parse import unquote, urlparse
 from urllib.request import Request, urlopen
 from zipfile import BadZipFile, ZipFile
+from zlib import error as ZlibError
 
 from huggingface_hub import snapshot_download
 from huggingface_hub.constants import HF_HUB_CACHE
@@ -613,12 +616,14 @@ class _AssetDownloadOperation:
 
             try:
                 response = urlopen(request)
-            except URLError as ex:
-                self._raise_download_error("Address is not reachable.", ex)
             except HTTPError as ex:
                 self._raise_download_error(
                     f"Server returned HTTP error code {ex.code}."
                 )
+            except URLError as ex:
+                self._raise_download_error("Address is not reachable.", ex)
+            except HTTPException as ex:
+                self._raise_download_error("Server sent an invalid response.", ex)
 
             exit_stack.enter_context(response)
 
@@ -654,6 +659,8 @@ class _AssetDownloadOperation:
                     self._raise_download_error(
                         f"Server returned HTTP error code {ex.code}."
                     )
+                except HTTPException as ex:
+                    self._raise_download_error("Server sent an invalid response.", ex)
 
                 buffer_len = len(buffer)
                 if buffer_len == 0:
@@ -739,7 +746,16 @@ class _AssetDownloadOperation:
                     try:
                         with ZipFile(download_file) as zip_fp:
                             zip_fp.extractall(path=asset_dir)
-                    except (KeyError, OSError, EOFError, BadZipFile) as ex:
+                    except (
+                        KeyError,
+                        OSError,
+                        EOFError,
+                        BadZipFile,
+                        LZMAError,
+                        RuntimeError,
+                        ValueError,
+                        ZlibError,
+                    ) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
@@ -758,7 +774,15 @@ class _AssetDownloadOperation:
                     try:
                         with TarFile.open(download_file) as tar_fp:
                             tar_fp.extractall(path=asset_dir, filter="data")
-                    except (KeyError, OSError, EOFError, TarError) as ex:
+                    except (
+                        KeyError,
+                        OSError,
+                        EOFError,
+                        LZMAError,
+                        TarError,
+                        ValueError,
+                        ZlibError,
+                    ) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
-- 
2.43.0


From b08a7b58b00434d4cb2b2a42e563a9292e72efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 072/133] fix: report assets not in the Hugging Face Hub cache
 as download errors

---
 src/fairseq2/assets/download_manager.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 253ec0d..ca44110 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -25,7 +25,7 @@ from zlib import error as ZlibError
 
 from huggingface_hub import snapshot_download
 from huggingface_hub.constants import HF_HUB_CACHE
-from huggingface_hub.errors import HfHubHTTPError
+from huggingface_hub.errors import HfHubHTTPError, LocalEntryNotFoundError
 from typing_extensions import NoReturn, override
 
 from fairseq2.error import InternalError, NotSupportedError
@@ -395,14 +395,17 @@ class HuggingFaceHub(AssetDownloadManager):
 
         try:
             yield repo_id
-        except HfHubHTTPError as ex:
+        except (HfHubHTTPError, LocalEntryNotFoundError) as ex:
             self._raise_download_error(uri, ex)
 
         _flush_nfs_lookup_cache(cache_dir)
 
     @staticmethod
     def _raise_download_error(uri: Uri, cause: Exception) -> NoReturn:
-        reason = "Hugging Face Hub returned an error."
+        if isinstance(cause, LocalEntryNotFoundError):
+            reason = "Asset is not cached and Hugging Face Hub is not reachable."
+        else:
+            reason = "Hugging Face Hub returned an error."
 
         raise AssetDownloadError(uri, reason) from cause
 
-- 
2.43.0


From 8952a07bb48a8db8508f5b725bfa427189d1efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 073/133] fix: asset never downloaded again after an
 interrupted forced download

---
 src/fairseq2/assets/download_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index ca44110..d855ca4 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -587,7 +587,12 @@ class _AssetDownloadOperation:
         download_dir = asset_dir.with_suffix(".download")
 
         if self._file_system.exists(download_dir):
-            return
+            if any(download_dir.iterdir()):
+                return
+
+            # The remains of an interrupted run that had already extracted the
+            # asset.
+            self._discard_directory(download_dir)
 
         succeeded = False
 
-- 
2.43.0


From 41269c3eda9d008e7d51a167968393803a000d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 074/133] fix: failures while detecting the type of downloaded
 files

---
 src/fairseq2/assets/download_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index d855ca4..4b8eeb5 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -772,7 +772,7 @@ class _AssetDownloadOperation:
                         self._file_system.remove(download_file)
                     except OSError:
                         pass
-        elif is_tarfile(download_file):
+        elif self._is_tar_file(download_file):
             with self._progress_reporter:
                 task = self._progress_reporter.create_task(
                     "extract", total=None, start=False
@@ -806,6 +806,13 @@ class _AssetDownloadOperation:
 
         self._file_system.remove_directory(download_dir)
 
+    @staticmethod
+    def _is_tar_file(file: Path) -> bool:
+        try:
+            return is_tarfile(file)
+        except (EOFError, LZMAError, ValueError, ZlibError):  # corrupt compressed file
+            return False
+
     def _retrieve_asset_path(self) -> Path:
         asset_dir = self._asset_dir
 
-- 
2.43.0


From 7654dbb04032bd5cfc01056822960e633b491d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 075/133] fix: NLL loss metric diluted by batches without any
 targets

---
 src/fairseq2/metrics/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/metrics/common.py b/src/fairseq2/metrics/common.py
index da2ade5..242f1ff 100644
--- a/src/fairseq2/metrics/common.py
+++ b/src/fairseq2/metrics/common.py
@@ -29,7 +29,11 @@ def update_nll_loss_metric(
 ) -> None:
     loss = loss.detach()
 
-    n = num_targets or 1
+    n = 1 if num_targets is None else num_targets
+
+    # A batch without any targets has no loss.
+    if n == 0:
+        return
 
     metric_bag.get("nll_loss", Mean).update(loss / n, weight=n)
 
-- 
2.43.0


From d62b99bfc23eaea06afc9820b0ec8e9009b7bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 076/133] fix: published metric values modified by later
 updates

---
 src/fairseq2/metrics/bag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/metrics/bag.py b/src/fairseq2/metrics/bag.py
index 9f83027..9040d5f 100644
--- a/src/fairseq2/metrics/bag.py
+++ b/src/fairseq2/metrics/bag.py
@@ -131,7 +131,9 @@ def sync_and_compute_metrics(bag: MetricBag, gang: Gang) -> dict[str, object] |
         raise ValueError("`bag.device` and `gang.device` must be same.")
 
     if gang.size == 1:
-        metric_values = {name: m.compute() for name, m in bag.metrics.items()}
+        # The value of a metric might be (a view of) its state, which is modified
+        # in-place by subsequent updates.
+        metric_values = {n: deepcopy(m.compute()) for n, m in bag.metrics.items()}
     else:
         metrics = dict(bag.metrics)
 
-- 
2.43.0


From e1d9a8541ee11719e739a09522e6f5cd1cb4055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 077/133] fix: formatting of infinite and NaN metric values

---
 src/fairseq2/metrics/formatters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/metrics/formatters.py b/src/fairseq2/metrics/formatters.py
index ee36e9d..a7f907d 100644
--- a/src/fairseq2/metrics/formatters.py
+++ b/src/fairseq2/metrics/formatters.py
@@ -21,7 +21,7 @@ def format_as_int(value: object, *, postfix: str | None = None) -> str:
     elif isinstance(value, (str, Tensor, float)):
         try:
             i = int(value)
-        except ValueError:
+        except (ValueError, OverflowError):  # might be non-finite
             return f"{value}"
     elif isinstance(value, Sequence):
         return ", ".join(format_as_int(e) for e in value)
@@ -76,6 +76,9 @@ def format_as_percentage(value: object) -> str:
     else:
         return f"{value}"
 
+    if not math.isfinite(f):
+        return f"{f:g}"
+
     i = math.ceil(f * 100)
 
     return f"{i}%"
-- 
2.43.0


From 1f31f8d8b019047b773cb3dd1d6df97cafb01cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 078/133] fix: number of target elements of
 sequence-to-sequence batches includes sources

---
 src/fairseq2/datasets/batch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fairseq2/datasets/batch.py b/src/fairseq2/datasets/batch.py
index 28618fe..a69e95b 100644
--- a/src/fairseq2/datasets/batch.py
+++ b/src/fairseq2/datasets/batch.py
@@ -505,9 +505,7 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
 
         self._target_mask = target_mask
 
-        if target_mask is None:
-            self._num_target_elements = self._num_elements
-        else:
+        if target_mask is not None:
             self._num_target_elements = int(target_mask.sum())
 
         self._example = example
-- 
2.43.0


From d7e9bf3781d57abcd0a702ceb199af0886ea86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 079/133] fix: out of bounds reads with large sizes in file
 mapper paths

---
 native/src/fairseq2n/data/file_mapper.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/file_mapper.cc b/native/src/fairseq2n/data/file_mapper.cc
index 02f4e1b..19116ff 100644
--- a/native/src/fairseq2n/data/file_mapper.cc
+++ b/native/src/fairseq2n/data/file_mapper.cc
@@ -7,6 +7,7 @@
 #include "fairseq2n/data/file_mapper.h"
 
 #include <array>
+#include <limits>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -113,9 +114,15 @@ file_mapper::operator()(data &&d) const
 
     std::size_t size = *maybe_size;
 
-    if (std::size_t upper_boundary = offset + size; upper_boundary > block.size())
+    // Do not compare the end of the region directly; it can overflow.
+    if (size > block.size() - offset) {
+        constexpr std::size_t max_boundary = std::numeric_limits<std::size_t>::max();
+
+        std::size_t upper_boundary = size > max_boundary - offset ? max_boundary : offset + size;
+
         throw_<std::invalid_argument>(
             "The end of the specified region within '{}' must be less than or equal to the file size ({} bytes), but is {} instead.", pathname, fmt::group_digits(block.size()), fmt::group_digits(upper_boundary));
+    }
 
     // Otherwise, return the memory map region specified by the offset and size.
     return pack_output(block.share_slice(offset, size));
-- 
2.43.0


From d2815ea802c0486b459b7c1ede7c37fcbd2d62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 080/133] fix: process aborted by invalid data pipelines within
 concat

---
 native/src/fairseq2n/data/concat_data_source.cc | 2 +-
 native/src/fairseq2n/data/concat_data_source.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/native/src/fairseq2n/data/concat_data_source.cc b/native/src/fairseq2n/data/concat_data_source.cc
index 506c5d8..565ce5e 100644
--- a/native/src/fairseq2n/data/concat_data_source.cc
+++ b/native/src/fairseq2n/data/concat_data_source.cc
@@ -10,7 +10,7 @@
 
 namespace fairseq2n::detail {
 
-concat_data_source::concat_data_source(std::vector<data_pipeline> &&pipelines) noexcept
+concat_data_source::concat_data_source(std::vector<data_pipeline> &&pipelines)
   : pipelines_(std::move(pipelines))
 {
     if (pipelines_.empty())
diff --git a/native/src/fairseq2n/data/concat_data_source.h b/native/src/fairseq2n/data/concat_data_source.h
index 42b75dd..1de5d5a 100644
--- a/native/src/fairseq2n/data/concat_data_source.h
+++ b/native/src/fairseq2n/data/concat_data_source.h
@@ -17,7 +17,7 @@ namespace fairseq2n::detail {
 class concat_data_source final : public data_source {
 public:
     explicit
-    concat_data_source(std::vector<data_pipeline> &&pipelines) noexcept;
+    concat_data_source(std::vector<data_pipeline> &&pipelines);
 
     std::optional<data>
     next() override;
-- 
2.43.0


From 04d50783e19465c7ca8348f7024e2bbad4957260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 081/133] fix: undefined behavior when count data pipelines
 overflow

---
 native/src/fairseq2n/data/count_data_source.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/count_data_source.cc b/native/src/fairseq2n/data/count_data_source.cc
index 60982d9..8b02cf3 100644
--- a/native/src/fairseq2n/data/count_data_source.cc
+++ b/native/src/fairseq2n/data/count_data_source.cc
@@ -15,7 +15,9 @@ count_data_source::next()
 {
     std::int64_t output = counter_;
 
-    counter_ += step_;
+    // Wrap around instead of overflowing which is undefined for signed integers.
+    counter_ = static_cast<std::int64_t>(
+        static_cast<std::uint64_t>(counter_) + static_cast<std::uint64_t>(step_));
 
     if (maybe_key_)
         return data_dict{{*maybe_key_, output}};
-- 
2.43.0


From 2a4a8e1de8b302592a6bd7c7030430ac5b3b7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 082/133] fix: example lost by shuffle after a recoverable
 error

---
 native/src/fairseq2n/data/shuffle_data_source.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/native/src/fairseq2n/data/shuffle_data_source.cc b/native/src/fairseq2n/data/shuffle_data_source.cc
index 8349c16..8244e6f 100644
--- a/native/src/fairseq2n/data/shuffle_data_source.cc
+++ b/native/src/fairseq2n/data/shuffle_data_source.cc
@@ -70,12 +70,19 @@ shuffle_data_source::next()
 
     data &buffered_example = *buffer_pos_;
 
+    bool is_eod = buffer_end_ != buffer_.end();
+
+    // Read the next example first; in case of a recoverable error, the buffered
+    // example should not get lost.
+    std::optional<data> maybe_example{};
+    if (!is_eod)
+        maybe_example = inner_->next();
+
     data output = std::move(buffered_example);
 
     // If we have not reached the end of `inner_`, fill the position of the
     // moved example with a new example.
-    if (buffer_end_ == buffer_.end()) {
-        std::optional<data> maybe_example = inner_->next();
+    if (!is_eod) {
         if (maybe_example) {
             buffered_example = *std::move(maybe_example);
         } else {
-- 
2.43.0


From da9c5a41f5f69b0f2696b1243620f8bbfadaa4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 083/133] fix: out of bounds access in round_robin and sample
 after a recoverable error

---
 native/src/fairseq2n/data/round_robin_data_source.cc | 7 +++----
 native/src/fairseq2n/data/sample_data_source.cc      | 9 +++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/native/src/fairseq2n/data/round_robin_data_source.cc b/native/src/fairseq2n/data/round_robin_data_source.cc
index 10dc247..46f8163 100644
--- a/native/src/fairseq2n/data/round_robin_data_source.cc
+++ b/native/src/fairseq2n/data/round_robin_data_source.cc
@@ -48,10 +48,9 @@ round_robin_data_source::next()
         }
 
         // If this is the first call, gather the first round of examples.
-        if (buffer_.empty()) {
-            for (std::size_t i = 0; i < pipelines_.size(); i++)
-                buffer_.push_back(next_in_pipeline(i));
-        }
+        // If it was interrupted by a recoverable error, resume it.
+        while (buffer_.size() < pipelines_.size())
+            buffer_.push_back(next_in_pipeline(buffer_.size()));
 
         std::optional<data> output{};
 
diff --git a/native/src/fairseq2n/data/sample_data_source.cc b/native/src/fairseq2n/data/sample_data_source.cc
index b66f0d9..0e0f968 100644
--- a/native/src/fairseq2n/data/sample_data_source.cc
+++ b/native/src/fairseq2n/data/sample_data_source.cc
@@ -72,10 +72,11 @@ sample_data_source::next()
     if (pipelines_.empty() || are_all_done())
         return std::nullopt;
 
-    // If this is the first call, gather the first round of examples.
-    if (buffer_.empty()) {
-        for (std::size_t i = 0; i < pipelines_.size(); i++)
-            buffer_.push_back(next_in_pipeline(i));
+    // If this is the first call, gather the first round of examples. If it was
+    // interrupted by a recoverable error, resume it.
+    if (buffer_.size() < pipelines_.size()) {
+        while (buffer_.size() < pipelines_.size())
+            buffer_.push_back(next_in_pipeline(buffer_.size()));
 
         // All data pipelines might be empty.
         if (std::none_of(buffer_.begin(), buffer_.end(), [](const auto &e) { return e.has_value(); }))
-- 
2.43.0


From 5581f77997d06d1b87b49a05211c45d50fd8f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 084/133] fix: memory errors and endless reads with invalid
 data pipeline states

---
 .../fairseq2n/data/bucket_by_length_data_source.cc  |  6 +++++-
 native/src/fairseq2n/data/list_data_source.cc       |  2 +-
 native/src/fairseq2n/data/map_data_source.cc        |  2 +-
 native/src/fairseq2n/data/repeat_data_source.cc     |  2 +-
 .../src/fairseq2n/data/round_robin_data_source.cc   |  6 +++++-
 native/src/fairseq2n/data/sample_data_source.cc     | 11 +++++++++++
 native/src/fairseq2n/data/shuffle_data_source.cc    | 13 +++++++++----
 native/src/fairseq2n/data/take_data_source.cc       |  2 +-
 native/src/fairseq2n/data/tape.cc                   | 10 ++++++++++
 native/src/fairseq2n/data/tape.h                    |  5 ++++-
 10 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/native/src/fairseq2n/data/bucket_by_length_data_source.cc b/native/src/fairseq2n/data/bucket_by_length_data_source.cc
index 76f72b3..0849b62 100644
--- a/native/src/fairseq2n/data/bucket_by_length_data_source.cc
+++ b/native/src/fairseq2n/data/bucket_by_length_data_source.cc
@@ -146,7 +146,11 @@ bucket_by_length_data_source::record_position(tape &t, bool strict) const
 void
 bucket_by_length_data_source::reload_position(tape &t, bool strict)
 {
-    buckets_ = t.read<std::vector<data_list>>();
+    auto buckets = t.read<std::vector<data_list>>();
+    if (buckets.size() != buckets_.size())
+        tape::throw_corrupt();
+
+    buckets_ = std::move(buckets);
 
     inner_->reload_position(t, strict);
 }
diff --git a/native/src/fairseq2n/data/list_data_source.cc b/native/src/fairseq2n/data/list_data_source.cc
index 68f0778..a64df4c 100644
--- a/native/src/fairseq2n/data/list_data_source.cc
+++ b/native/src/fairseq2n/data/list_data_source.cc
@@ -34,7 +34,7 @@ list_data_source::record_position(tape &t, bool) const
 void
 list_data_source::reload_position(tape &t, bool)
 {
-    pos_ = list_.begin() + t.read<std::ptrdiff_t>();
+    pos_ = list_.begin() + t.read_position(list_.size());
 }
 
 data_source_finitude_type
diff --git a/native/src/fairseq2n/data/map_data_source.cc b/native/src/fairseq2n/data/map_data_source.cc
index 4e8bb1e..2ef8700 100644
--- a/native/src/fairseq2n/data/map_data_source.cc
+++ b/native/src/fairseq2n/data/map_data_source.cc
@@ -158,7 +158,7 @@ map_data_source::reload_position(tape &t, bool strict)
     if (strict && deterministic_) {
         buffer_ = t.read<std::vector<std::optional<data>>>();
 
-        buffer_pos_ = buffer_.begin() + t.read<std::ptrdiff_t>();
+        buffer_pos_ = buffer_.begin() + t.read_position(buffer_.size());
     } else if (strict && !deterministic_) {
         // Wait for all tasks to complete and reset state
         reset_async_state();
diff --git a/native/src/fairseq2n/data/repeat_data_source.cc b/native/src/fairseq2n/data/repeat_data_source.cc
index f904a35..251c06a 100644
--- a/native/src/fairseq2n/data/repeat_data_source.cc
+++ b/native/src/fairseq2n/data/repeat_data_source.cc
@@ -27,7 +27,7 @@ repeat_data_source::next()
         if (!has_data_)
             return std::nullopt;
 
-        if (num_repeats_ && repeat_nr_ == *num_repeats_ - 1)
+        if (num_repeats_ && repeat_nr_ >= *num_repeats_ - 1)
             return std::nullopt;
 
         repeat_nr_++;
diff --git a/native/src/fairseq2n/data/round_robin_data_source.cc b/native/src/fairseq2n/data/round_robin_data_source.cc
index 46f8163..b37f68d 100644
--- a/native/src/fairseq2n/data/round_robin_data_source.cc
+++ b/native/src/fairseq2n/data/round_robin_data_source.cc
@@ -108,10 +108,14 @@ round_robin_data_source::reload_position(tape &t, bool strict)
 {
     if (strict) {
         buffer_ = t.read<std::vector<std::optional<data>>>();
+        if (buffer_.size() > pipelines_.size())
+            tape::throw_corrupt();
 
-        buffer_idx_ = t.read<std::size_t>();
+        buffer_idx_ = static_cast<std::size_t>(t.read_position(pipelines_.size()));
 
         is_epoch_done_ = t.read<std::vector<bool>>();
+        if (is_epoch_done_.size() != pipelines_.size())
+            tape::throw_corrupt();
     } else {
         buffer_.clear();
 
diff --git a/native/src/fairseq2n/data/sample_data_source.cc b/native/src/fairseq2n/data/sample_data_source.cc
index 0e0f968..b988ab0 100644
--- a/native/src/fairseq2n/data/sample_data_source.cc
+++ b/native/src/fairseq2n/data/sample_data_source.cc
@@ -130,8 +130,17 @@ sample_data_source::reload_position(tape &t, bool strict)
 {
     if (strict) {
         buffer_ = t.read<std::vector<std::optional<data>>>();
+        if (buffer_.size() > pipelines_.size())
+            tape::throw_corrupt();
 
         is_epoch_done_ = t.read<std::vector<bool>>();
+        if (is_epoch_done_.size() != pipelines_.size())
+            tape::throw_corrupt();
+
+        // Only exhausted pipelines have no buffered example.
+        for (std::size_t i = 0; i < buffer_.size(); i++)
+            if (!buffer_[i] && !is_epoch_done_[i])
+                tape::throw_corrupt();
     } else {
         buffer_.clear();
 
@@ -145,6 +154,8 @@ sample_data_source::reload_position(tape &t, bool strict)
     generator_.set_state(t.read<at::Tensor>());
 
     weight_cumsums_ = t.read<std::vector<float32>>();
+    if (weight_cumsums_.size() != pipelines_.size())
+        tape::throw_corrupt();
 
     for (data_pipeline &pipeline : pipelines_)
         pipeline.reload_position(t);
diff --git a/native/src/fairseq2n/data/shuffle_data_source.cc b/native/src/fairseq2n/data/shuffle_data_source.cc
index 8244e6f..de649c2 100644
--- a/native/src/fairseq2n/data/shuffle_data_source.cc
+++ b/native/src/fairseq2n/data/shuffle_data_source.cc
@@ -120,8 +120,9 @@ shuffle_data_source::record_position(tape &t, bool strict) const
     if (strict) {
         t.record(buffer_);
 
-        t.record(buffer_pos_ - buffer_.begin());
-        t.record(buffer_end_ - buffer_.begin());
+        // The iterators are only valid once the buffer is filled.
+        t.record(fill_buffer_ ? 0 : buffer_pos_ - buffer_.begin());
+        t.record(fill_buffer_ ? 0 : buffer_end_ - buffer_.begin());
 
         t.record(fill_buffer_);
     }
@@ -139,10 +140,14 @@ shuffle_data_source::reload_position(tape &t, bool strict)
     if (strict) {
         buffer_ = t.read<data_list>();
 
-        buffer_pos_ = buffer_.begin() + t.read<std::ptrdiff_t>();
-        buffer_end_ = buffer_.begin() + t.read<std::ptrdiff_t>();
+        buffer_pos_ = buffer_.begin() + t.read_position(buffer_.size());
+        buffer_end_ = buffer_.begin() + t.read_position(buffer_.size());
 
         fill_buffer_ = t.read<bool>();
+
+        // The read position wraps around; it never stays at the end.
+        if (buffer_pos_ == buffer_.end() && !buffer_.empty())
+            tape::throw_corrupt();
     } else {
         buffer_.clear();
 
diff --git a/native/src/fairseq2n/data/take_data_source.cc b/native/src/fairseq2n/data/take_data_source.cc
index f6e6683..f610627 100644
--- a/native/src/fairseq2n/data/take_data_source.cc
+++ b/native/src/fairseq2n/data/take_data_source.cc
@@ -11,7 +11,7 @@ namespace fairseq2n::detail {
 std::optional<data>
 take_data_source::next()
 {
-    if (num_examples_read_ == num_examples_)
+    if (num_examples_read_ >= num_examples_)
         return std::nullopt;
 
     std::optional<data> maybe_example = inner_->next();
diff --git a/native/src/fairseq2n/data/tape.cc b/native/src/fairseq2n/data/tape.cc
index a7b8833..e9e5716 100644
--- a/native/src/fairseq2n/data/tape.cc
+++ b/native/src/fairseq2n/data/tape.cc
@@ -34,4 +34,14 @@ tape::read_data()
     return *pos_++;
 }
 
+std::ptrdiff_t
+tape::read_position(std::size_t size)
+{
+    auto position = read<std::size_t>();
+    if (position > size)
+        throw_corrupt();
+
+    return static_cast<std::ptrdiff_t>(position);
+}
+
 }  // namespace fairseq2n
diff --git a/native/src/fairseq2n/data/tape.h b/native/src/fairseq2n/data/tape.h
index 8919af9..3fd5ded 100644
--- a/native/src/fairseq2n/data/tape.h
+++ b/native/src/fairseq2n/data/tape.h
@@ -45,6 +45,10 @@ public:
     data
     read_data();
 
+    // Reads a position within, or at the end of, a sequence of length `size`.
+    std::ptrdiff_t
+    read_position(std::size_t size);
+
     void
     rewind() noexcept
     {
@@ -63,7 +67,6 @@ public:
         return storage_;
     }
 
-private:
     [[noreturn]] static void
     throw_corrupt();
 
-- 
2.43.0


From 7be5328b0581a45fac13974c6c8c6ab3dfe8b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 085/133] fix: examples lost by bucket after a recoverable
 error

---
 .../src/fairseq2n/data/bucket_data_source.cc  | 24 +++++++++++++++----
 .../src/fairseq2n/data/bucket_data_source.h   |  1 +
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/native/src/fairseq2n/data/bucket_data_source.cc b/native/src/fairseq2n/data/bucket_data_source.cc
index 291cbaf..742b127 100644
--- a/native/src/fairseq2n/data/bucket_data_source.cc
+++ b/native/src/fairseq2n/data/bucket_data_source.cc
@@ -18,18 +18,22 @@ bucket_data_source::bucket_data_source(
 std::optional<data>
 bucket_data_source::next()
 {
-    data_list output{};
+    buffer_.reserve(bucket_size_);
 
-    output.reserve(bucket_size_);
-
-    for (std::size_t i = 0; i < bucket_size_; ++i) {
+    // If `inner_` raises a recoverable error, the examples read so far stay in
+    // the buffer and become part of the next bucket.
+    while (buffer_.size() < bucket_size_) {
         std::optional<data> maybe_example = inner_->next();
         if (!maybe_example)
             break;
 
-        output.push_back(*std::move(maybe_example));
+        buffer_.push_back(*std::move(maybe_example));
     }
 
+    data_list output = std::move(buffer_);
+
+    buffer_.clear();
+
     if (output.empty())
         return std::nullopt;
 
@@ -42,18 +46,28 @@ bucket_data_source::next()
 void
 bucket_data_source::reset(bool reset_rng)
 {
+    buffer_.clear();
+
     inner_->reset(reset_rng);
 }
 
 void
 bucket_data_source::record_position(tape &t, bool strict) const
 {
+    if (strict)
+        t.record(buffer_);
+
     inner_->record_position(t, strict);
 }
 
 void
 bucket_data_source::reload_position(tape &t, bool strict)
 {
+    if (strict)
+        buffer_ = t.read<data_list>();
+    else
+        buffer_.clear();
+
     inner_->reload_position(t, strict);
 }
 
diff --git a/native/src/fairseq2n/data/bucket_data_source.h b/native/src/fairseq2n/data/bucket_data_source.h
index 3e5a30e..81e9623 100644
--- a/native/src/fairseq2n/data/bucket_data_source.h
+++ b/native/src/fairseq2n/data/bucket_data_source.h
@@ -41,6 +41,7 @@ private:
     std::unique_ptr<data_source> inner_;
     std::size_t bucket_size_;
     bool drop_remainder_;
+    data_list buffer_{};
 };
 
 }  // namespace fairseq2n::detail
-- 
2.43.0


From 2f3e689e25f770e6fb93af44e4753367954aa860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 086/133] fix: state of text readers not restorable in some
 positions

---
 native/src/fairseq2n/data/file_stream.cc   | 6 ++----
 native/src/fairseq2n/data/memory_stream.cc | 6 ++----
 native/src/fairseq2n/data/record_reader.cc | 3 ++-
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/native/src/fairseq2n/data/file_stream.cc b/native/src/fairseq2n/data/file_stream.cc
index bc44719..e0f1d4b 100644
--- a/native/src/fairseq2n/data/file_stream.cc
+++ b/native/src/fairseq2n/data/file_stream.cc
@@ -65,6 +65,8 @@ void
 file_stream::seek(std::size_t offset)
 {
     seek(offset, /*from_current=*/false);
+
+    is_eod_ = false;
 }
 
 std::size_t
@@ -77,8 +79,6 @@ void
 file_stream::reset()
 {
     seek(0);
-
-    is_eod_ = false;
 }
 
 void
@@ -93,8 +93,6 @@ void
 file_stream::reload_position(tape &t)
 {
     seek(t.read<std::size_t>());
-
-    is_eod_ = false;
 }
 
 bool
diff --git a/native/src/fairseq2n/data/memory_stream.cc b/native/src/fairseq2n/data/memory_stream.cc
index 85f4690..bee483c 100644
--- a/native/src/fairseq2n/data/memory_stream.cc
+++ b/native/src/fairseq2n/data/memory_stream.cc
@@ -17,10 +17,10 @@ memory_stream::read_chunk()
 void
 memory_stream::seek(std::size_t offset)
 {
-    if (offset >= block_.size())
+    if (offset >= original_block_.size())
         block_ = {};
     else
-        block_ = block_.share_slice(offset);
+        block_ = original_block_.share_slice(offset);
 }
 
 std::size_t
@@ -46,8 +46,6 @@ memory_stream::record_position(tape &t) const
 void
 memory_stream::reload_position(tape &t)
 {
-    block_ = original_block_;
-
     seek(t.read<std::size_t>());
 }
 
diff --git a/native/src/fairseq2n/data/record_reader.cc b/native/src/fairseq2n/data/record_reader.cc
index 6769d79..7c71e72 100644
--- a/native/src/fairseq2n/data/record_reader.cc
+++ b/native/src/fairseq2n/data/record_reader.cc
@@ -63,7 +63,8 @@ record_reader::reload_position(tape &t)
     if (chunk_offset_ > 0) {
         current_chunk_ = stream_->read_chunk();
 
-        if (chunk_offset_ >= current_chunk_.size())
+        // The offset equals the size of the chunk if its last record was read.
+        if (chunk_offset_ > current_chunk_.size())
             throw_<std::invalid_argument>(
                 "The tape is corrupt. The state of the record reader cannot be restored.");
 
-- 
2.43.0


From 83b58f6a1341c24079f475755f978c53301b123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 087/133] fix: CRLF line endings at block boundaries not
 recognized

---
 .../src/fairseq2n/data/text/text_line_reader.cc   | 15 ++++++++-------
 native/src/fairseq2n/data/text/text_line_reader.h |  3 ++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/native/src/fairseq2n/data/text/text_line_reader.cc b/native/src/fairseq2n/data/text/text_line_reader.cc
index 6474b9f..bae28e4 100644
--- a/native/src/fairseq2n/data/text/text_line_reader.cc
+++ b/native/src/fairseq2n/data/text/text_line_reader.cc
@@ -12,12 +12,17 @@
 namespace fairseq2n::detail {
 
 std::optional<std::size_t>
-text_line_reader::maybe_find_record_end(memory_span chunk, bool)
+text_line_reader::maybe_find_record_end(memory_span chunk, bool first_chunk)
 {
     auto chars = cast<const char>(chunk);
 
+    // Whether the preceding chunk of the same record ends with a CR.
+    bool has_cr = !first_chunk && ends_with_cr_;
+
+    ends_with_cr_ = chars.empty() ? has_cr : chars[chars.size() - 1] == '\r';
+
     if (line_ending_ == line_ending::infer)
-        if (!infer_line_ending(chars))
+        if (!infer_line_ending(chars, has_cr))
             return std::nullopt;
 
     auto pos = chars.begin();
@@ -31,8 +36,6 @@ text_line_reader::maybe_find_record_end(memory_span chunk, bool)
         break;
     }
     case line_ending::crlf: {
-        bool has_cr = false;
-
         for (; pos < chars.end(); ++pos) {
             if (*pos == '\n') {
                 if (has_cr)
@@ -55,10 +58,8 @@ text_line_reader::maybe_find_record_end(memory_span chunk, bool)
 }
 
 bool
-text_line_reader::infer_line_ending(span<const char> chars)
+text_line_reader::infer_line_ending(span<const char> chars, bool has_cr) noexcept
 {
-    bool has_cr = false;
-
     for (char chr : chars) {
         if (chr == '\n') {
             if (has_cr)
diff --git a/native/src/fairseq2n/data/text/text_line_reader.h b/native/src/fairseq2n/data/text/text_line_reader.h
index 9691d38..8e9d0e9 100644
--- a/native/src/fairseq2n/data/text/text_line_reader.h
+++ b/native/src/fairseq2n/data/text/text_line_reader.h
@@ -34,10 +34,11 @@ private:
     maybe_find_record_end(memory_span chunk, bool first_chunk) override;
 
     bool
-    infer_line_ending(span<const char> chars);
+    infer_line_ending(span<const char> chars, bool has_cr) noexcept;
 
 private:
     line_ending line_ending_;
+    bool ends_with_cr_ = false;
 };
 
 }  // namespace fairseq2n::detail
-- 
2.43.0


From 01df79930828565b1fcb8974e034da5cd78ca0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 088/133] fix: inferred line ending of text files lost when
 restored

---
 native/src/fairseq2n/data/record_reader.cc         |  4 ++++
 native/src/fairseq2n/data/text/text_data_source.cc | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/native/src/fairseq2n/data/record_reader.cc b/native/src/fairseq2n/data/record_reader.cc
index 7c71e72..3b99681 100644
--- a/native/src/fairseq2n/data/record_reader.cc
+++ b/native/src/fairseq2n/data/record_reader.cc
@@ -39,6 +39,8 @@ record_reader::reset()
 
     current_chunk_ = {};
 
+    previous_chunks_.clear();
+
     stream_offset_ = 0;
 
     chunk_offset_ = 0;
@@ -55,6 +57,8 @@ record_reader::record_position(tape &t) const
 void
 record_reader::reload_position(tape &t)
 {
+    previous_chunks_.clear();
+
     stream_offset_ = t.read<std::size_t>();
 
     stream_->seek(stream_offset_);
diff --git a/native/src/fairseq2n/data/text/text_data_source.cc b/native/src/fairseq2n/data/text/text_data_source.cc
index 1e9cec5..ea9a8cd 100644
--- a/native/src/fairseq2n/data/text/text_data_source.cc
+++ b/native/src/fairseq2n/data/text/text_data_source.cc
@@ -80,6 +80,19 @@ text_data_source::record_position(tape &t, bool) const
 void
 text_data_source::reload_position(tape &t, bool)
 {
+    // The line ending is always the one of the first line of the file.
+    if (line_reader_->actual_line_ending() == line_ending::infer) {
+        try {
+            line_reader_->reset();
+
+            line_reader_->next();
+        } catch (const record_error &) {
+            // The file has no complete line; fails with the next read as well.
+        } catch (const std::exception &) {
+            handle_error();
+        }
+    }
+
     line_reader_->reload_position(t);
 }
 
-- 
2.43.0


From 6575423600db70aabc8d05cf2a3a8c90ff66eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 089/133] fix: names of string splitter mixed up with unsorted
 indices

---
 .../src/fairseq2n/data/text/string_splitter.cc  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/text/string_splitter.cc b/native/src/fairseq2n/data/text/string_splitter.cc
index 542bdd8..dfd5c06 100644
--- a/native/src/fairseq2n/data/text/string_splitter.cc
+++ b/native/src/fairseq2n/data/text/string_splitter.cc
@@ -8,7 +8,10 @@
 
 #include <algorithm>
 #include <stdexcept>
+#include <string>
+#include <tuple>
 #include <utility>
+#include <vector>
 
 #include "fairseq2n/fmt.h"
 #include "fairseq2n/detail/exception.h"
@@ -54,7 +57,19 @@ string_splitter::finalize_indices() {
         throw_<std::invalid_argument>(
             "`names` and `indices` must have the same length, but have the lengths {} and {} instead.", names_.size(), indices_.size());
 
-    std::sort(indices_.begin(), indices_.end());
+    // The names have to stay with the indices that they correspond to.
+    if (!names_.empty() && !exclude_) {
+        std::vector<std::pair<std::size_t, std::string>> columns{};
+
+        for (std::size_t i = 0; i < indices_.size(); ++i)
+            columns.emplace_back(indices_[i], std::move(names_[i]));
+
+        std::sort(columns.begin(), columns.end());
+
+        for (std::size_t i = 0; i < indices_.size(); ++i)
+            std::tie(indices_[i], names_[i]) = std::move(columns[i]);
+    } else
+        std::sort(indices_.begin(), indices_.end());
 }
 
 data
-- 
2.43.0


From 63b77143d870ae5316e3dd95d47017c6dc7093b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 090/133] fix: sequences lost by pack after recoverable errors,
 altered with mixed data types

---
 .../src/fairseq2n/data/packed_data_source.cc  | 90 ++++++++++++++-----
 .../src/fairseq2n/data/packed_data_source.h   |  3 +
 2 files changed, 73 insertions(+), 20 deletions(-)

diff --git a/native/src/fairseq2n/data/packed_data_source.cc b/native/src/fairseq2n/data/packed_data_source.cc
index 3944e98..237f5e3 100644
--- a/native/src/fairseq2n/data/packed_data_source.cc
+++ b/native/src/fairseq2n/data/packed_data_source.cc
@@ -19,12 +19,8 @@ namespace fairseq2n::detail {
 std::optional<data>
 packed_data_source::next()
 {
-    at::Tensor batch{};
-
-    data_list seq_lens{};
-
-    std::int64_t fill_pos = 0;
-
+    // If `inner_` raises a recoverable error, the sequences packed so far stay
+    // in `batch_`, and the next call continues with it.
     bool filled = false;
 
     while (true) {
@@ -53,31 +49,28 @@ packed_data_source::next()
                     "The input tensors to the pack operation must be one-dimensional.");
         }
 
-        if (!batch.defined()) {
-            batch = at::full({capacity_}, pad_value_,
-                at::dtype(tensor.dtype()).device(tensor.device()).pinned_memory(pinned_memory_));
-        } else {
-            tensor = tensor.to(batch.device());
-        }
-
         std::int64_t numel = tensor.numel();
         if (numel == 0)
             continue;
 
-        std::int64_t max_fill_size = std::min(capacity_ - fill_pos, max_seq_len_);
+        if (batch_.defined() && tensor.dtype() != batch_.dtype())
+            throw_data_pipeline_error(std::move(maybe_example), /*recoverable=*/true,
+                "The input tensors to the pack operation must have the same data type.");
+
+        std::int64_t max_fill_size = std::min(capacity_ - fill_pos_, max_seq_len_);
 
         std::int64_t fill_size = std::min(numel, max_fill_size);
 
         if (numel > fill_size) {
             if (truncate_) {
-                if (fill_pos + fill_size == capacity_)
+                if (fill_pos_ + fill_size == capacity_)
                     remainder_ = tensor.slice(/*dim=*/0, /*start=*/fill_size - 1);
                 else
                     remainder_ = tensor.slice(/*dim=*/0, /*start=*/fill_size);
 
                 tensor = tensor.slice(/*dim=*/0, /*start=*/0, /*end=*/fill_size);
             } else {
-                if (fill_pos == 0)
+                if (fill_pos_ == 0)
                     throw_data_pipeline_error(std::move(maybe_example), /*recoverable=*/true,
                         "The input tensor is too long to pack.");
 
@@ -89,11 +82,18 @@ packed_data_source::next()
             remainder_.reset();
         }
 
-        std::int64_t end_pos = fill_pos + fill_size;
+        if (!batch_.defined()) {
+            batch_ = at::full({capacity_}, pad_value_,
+                at::dtype(tensor.dtype()).device(tensor.device()).pinned_memory(pinned_memory_));
+        } else {
+            tensor = tensor.to(batch_.device());
+        }
+
+        std::int64_t end_pos = fill_pos_ + fill_size;
 
-        batch.slice(/*dim=*/0, /*start=*/fill_pos, /*end=*/end_pos) = tensor;
+        batch_.slice(/*dim=*/0, /*start=*/fill_pos_, /*end=*/end_pos) = tensor;
 
-        seq_lens.push_back(fill_size);
+        seq_lens_.push_back(fill_size);
 
         if (end_pos == capacity_) {
             filled = true;
@@ -101,9 +101,15 @@ packed_data_source::next()
             break;
         }
 
-        fill_pos = end_pos;
+        fill_pos_ = end_pos;
     }
 
+    at::Tensor batch = std::exchange(batch_, {});
+
+    data_list seq_lens = std::exchange(seq_lens_, {});
+
+    fill_pos_ = 0;
+
     if (truncate_ && !filled) {
         if (drop_remainder_)
             return std::nullopt;
@@ -126,6 +132,12 @@ packed_data_source::reset(bool reset_rng)
 {
     remainder_.reset();
 
+    batch_.reset();
+
+    seq_lens_.clear();
+
+    fill_pos_ = 0;
+
     inner_->reset(reset_rng);
 }
 
@@ -140,6 +152,20 @@ packed_data_source::record_position(tape &t, bool strict) const
         t.record(false);
     }
 
+    if (strict) {
+        bool has_batch = batch_.defined();
+
+        t.record(has_batch);
+
+        if (has_batch) {
+            t.record(batch_.clone());
+
+            t.record(seq_lens_);
+
+            t.record(fill_pos_);
+        }
+    }
+
     inner_->record_position(t, strict);
 }
 
@@ -152,6 +178,30 @@ packed_data_source::reload_position(tape &t, bool strict)
     else
         remainder_.reset();
 
+    batch_.reset();
+
+    seq_lens_.clear();
+
+    fill_pos_ = 0;
+
+    if (strict && t.read<bool>()) {
+        auto batch = t.read<at::Tensor>();
+
+        auto seq_lens = t.read<data_list>();
+
+        auto fill_pos = t.read<std::int64_t>();
+
+        if (batch.dim() != 1 || batch.size(0) != capacity_ || fill_pos < 0 || fill_pos >= capacity_)
+            tape::throw_corrupt();
+
+        // The loaded state must not change as we continue to pack.
+        batch_ = batch.clone();
+
+        seq_lens_ = std::move(seq_lens);
+
+        fill_pos_ = fill_pos;
+    }
+
     inner_->reload_position(t, strict);
 }
 
diff --git a/native/src/fairseq2n/data/packed_data_source.h b/native/src/fairseq2n/data/packed_data_source.h
index 2e10884..e495261 100644
--- a/native/src/fairseq2n/data/packed_data_source.h
+++ b/native/src/fairseq2n/data/packed_data_source.h
@@ -59,6 +59,9 @@ private:
     std::int64_t max_seq_len_;
     std::int64_t pad_value_;
     at::Tensor remainder_;
+    at::Tensor batch_{};
+    data_list seq_lens_{};
+    std::int64_t fill_pos_ = 0;
     bool truncate_;
     bool drop_remainder_;
     bool pinned_memory_;
-- 
2.43.0


From 8f77388c6716c5a2afcf01fb730121e59de84690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 091/133] fix: endless data pipelines when packing into batches
 of a single element

---
 native/src/fairseq2n/data/data_pipeline.cc      | 6 ++++++
 native/src/fairseq2n/data/packed_data_source.cc | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/data_pipeline.cc b/native/src/fairseq2n/data/data_pipeline.cc
index b5d5717..fb61b16 100644
--- a/native/src/fairseq2n/data/data_pipeline.cc
+++ b/native/src/fairseq2n/data/data_pipeline.cc
@@ -485,6 +485,12 @@ data_pipeline_builder::pack(
     bool drop_remainder,
     bool pinned_memory) &&
 {
+    if (num_elements < 1)
+        throw_<std::invalid_argument>("`num_elements` must be greater than zero.");
+
+    if (max_seq_len < 1)
+        throw_<std::invalid_argument>("`max_seq_len` must be greater than zero.");
+
     factory_ = [=, inner = std::move(factory_)]
     {
         return std::make_unique<packed_data_source>(
diff --git a/native/src/fairseq2n/data/packed_data_source.cc b/native/src/fairseq2n/data/packed_data_source.cc
index 237f5e3..600c6f1 100644
--- a/native/src/fairseq2n/data/packed_data_source.cc
+++ b/native/src/fairseq2n/data/packed_data_source.cc
@@ -63,7 +63,7 @@ packed_data_source::next()
 
         if (numel > fill_size) {
             if (truncate_) {
-                if (fill_pos_ + fill_size == capacity_)
+                if (fill_pos_ + fill_size == capacity_ && capacity_ > 1)
                     remainder_ = tensor.slice(/*dim=*/0, /*start=*/fill_size - 1);
                 else
                     remainder_ = tensor.slice(/*dim=*/0, /*start=*/fill_size);
-- 
2.43.0


From 7c5448ef540238ddfbe58ed0cbbffc3786fe3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 092/133] fix: cost of dynamic buckets forgotten after a
 recoverable error

---
 .../data/dynamic_bucket_data_source.cc        | 30 ++++++++++++++-----
 .../data/dynamic_bucket_data_source.h         |  1 +
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
index 40a1c7a..ed646d6 100644
--- a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
+++ b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
@@ -41,10 +41,8 @@ dynamic_bucket_data_source::next()
     if (maybe_min_num_examples_)
         buffer_.reserve(*maybe_min_num_examples_);
 
-    float64 cost = 0;
-
     auto bucket_ready = [&]() {
-        bool cost_threshold_met = cost >= threshold_;
+        bool cost_threshold_met = cost_ >= threshold_;
 
         bool minimum_size_met = true;
         if (maybe_min_num_examples_)
@@ -63,14 +61,20 @@ dynamic_bucket_data_source::next()
         std::optional<data> maybe_example = inner_->next();
         if (!maybe_example)
             break;
-        cost += cost_fn_(*maybe_example);
+        cost_ += cost_fn_(*maybe_example);
         buffer_.push_back(*std::move(maybe_example));
     }
 
+    bool ready = bucket_ready();
+
+    // If `inner_` raised a recoverable error instead, the next call continues
+    // with the same bucket.
+    cost_ = 0;
+
     if (buffer_.empty())
         return std::nullopt;
 
-    if (bucket_ready()) {
+    if (ready) {
         if (maybe_bucket_creation_fn_) {
             const bucket_creation_fn& fn = *maybe_bucket_creation_fn_;
             auto&& [return_buffer, new_buffer] = fn(std::move(buffer_));
@@ -103,6 +107,7 @@ dynamic_bucket_data_source::reset(bool reset_rng)
 {
     buffer_.clear();
     return_buffer_.clear();
+    cost_ = 0;
     inner_->reset(reset_rng);
 }
 
@@ -113,7 +118,12 @@ dynamic_bucket_data_source::record_position(tape &t, bool strict) const
         t.record(buffer_);
 
         t.record(data_list{return_buffer_.begin(), return_buffer_.end()});
-    }
+    } else if (strict)
+        t.record(buffer_);
+
+    if (strict)
+        t.record(cost_);
+
     inner_->record_position(t, strict);
 }
 
@@ -126,7 +136,13 @@ dynamic_bucket_data_source::reload_position(tape &t, bool strict)
         auto return_buffer = t.read<data_list>();
 
         return_buffer_.assign(return_buffer.begin(), return_buffer.end());
-    }
+    } else if (strict)
+        buffer_ = t.read<data_list>();
+    else
+        buffer_.clear();
+
+    cost_ = strict ? t.read<float64>() : 0;
+
     inner_->reload_position(t, strict);
 }
 
diff --git a/native/src/fairseq2n/data/dynamic_bucket_data_source.h b/native/src/fairseq2n/data/dynamic_bucket_data_source.h
index 341e598..7bc6d54 100644
--- a/native/src/fairseq2n/data/dynamic_bucket_data_source.h
+++ b/native/src/fairseq2n/data/dynamic_bucket_data_source.h
@@ -52,6 +52,7 @@ private:
     bool drop_remainder_;
 
     data_list buffer_{};
+    float64 cost_ = 0;
     std::deque<data> return_buffer_{};
 
 };
-- 
2.43.0


From f3f9a7eddd1a0aba682fb6e5a964ff1b9ef6fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 093/133] fix: sequences altered when collating mixed data
 types

---
 native/src/fairseq2n/data/collater.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/native/src/fairseq2n/data/collater.cc b/native/src/fairseq2n/data/collater.cc
index 47cd0a3..22c13fa 100644
--- a/native/src/fairseq2n/data/collater.cc
+++ b/native/src/fairseq2n/data/collater.cc
@@ -295,6 +295,15 @@ collate_op::pad_tensors(span<at::Tensor> tensors, std::int64_t pad_value, const
 {
     at::Tensor seqs{};
 
+    // `pad_sequence()` converts all tensors to the type of the first one.
+    at::ScalarType dtype = tensors[0].scalar_type();
+
+    for (const at::Tensor &t : tensors)
+        dtype = at::promote_types(dtype, t.scalar_type());
+
+    for (at::Tensor &t : tensors)
+        t = t.to(dtype);
+
     // Pad.
     at::Tensor tmp = at::pad_sequence(
         tensors, /*batch_first=*/true, static_cast<float64>(pad_value));
-- 
2.43.0


From c97ba5aee97272fb20051581076382cff5ebdd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 094/133] fix: sequences of different shapes broadcast when
 collated

---
 native/src/fairseq2n/data/collater.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/native/src/fairseq2n/data/collater.cc b/native/src/fairseq2n/data/collater.cc
index 22c13fa..b0978e0 100644
--- a/native/src/fairseq2n/data/collater.cc
+++ b/native/src/fairseq2n/data/collater.cc
@@ -295,6 +295,12 @@ collate_op::pad_tensors(span<at::Tensor> tensors, std::int64_t pad_value, const
 {
     at::Tensor seqs{};
 
+    // `pad_sequence()` broadcasts the tensors to the shape of the first one.
+    for (const at::Tensor &t : tensors)
+        if (t.dim() == 0 || t.sizes().slice(1) != tensors[0].sizes().slice(1))
+            throw_<std::invalid_argument>(
+                "The tensors in the bucket cannot be padded. All tensors must have the same shape except their first dimension.");
+
     // `pad_sequence()` converts all tensors to the type of the first one.
     at::ScalarType dtype = tensors[0].scalar_type();
 
-- 
2.43.0


From 82e26ae8d7a782600e85b2e6198f57d01ccc51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 095/133] fix: stale vocabulary of replaced tiktoken models,
 invalid models not reported

---
 src/fairseq2/data/tokenizers/tiktoken.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/tiktoken.py b/src/fairseq2/data/tokenizers/tiktoken.py
index 05a2888..c199203 100644
--- a/src/fairseq2/data/tokenizers/tiktoken.py
+++ b/src/fairseq2/data/tokenizers/tiktoken.py
@@ -6,13 +6,13 @@
 
 from __future__ import annotations
 
+from base64 import b64decode
 from collections.abc import Sequence
 from pathlib import Path
 from typing import final
 
 import torch
 from tiktoken import Encoding
-from tiktoken.load import load_tiktoken_bpe
 from torch import Tensor
 from typing_extensions import override
 
@@ -47,8 +47,8 @@ def load_tiktoken_model(
     :param special_tokens: The special tokens to include in the tokenizer.
     """
     try:
-        tokens = load_tiktoken_bpe(str(path))
-    except RuntimeError as ex:
+        tokens = _load_bpe_tokens(path)
+    except ValueError as ex:
         msg = f"{path} is not a valid tiktoken model."
 
         raise TokenizerModelError(path, msg) from ex
@@ -88,6 +88,20 @@ def load_tiktoken_model(
     return TiktokenModel(encoding, num_tokens, vocab_info)
 
 
+def _load_bpe_tokens(path: Path) -> dict[bytes, int]:
+    # We do not use `load_tiktoken_bpe()` since it caches the content of the file
+    # by its pathname and would not notice if the file gets replaced.
+    tokens = {}
+
+    for line in path.read_bytes().splitlines():
+        if line:
+            token, rank = line.split()
+
+            tokens[b64decode(token)] = int(rank)
+
+    return tokens
+
+
 @final
 class TiktokenModel:
     def __init__(
-- 
2.43.0


From 0179faaf22e23bd665800a4a5f9fef1492f989a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 096/133] fix: tiktoken fails to encode characters split into
 multiple tokens as tokens

---
 src/fairseq2/data/tokenizers/tiktoken.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/tiktoken.py b/src/fairseq2/data/tokenizers/tiktoken.py
index c199203..4d5a506 100644
--- a/src/fairseq2/data/tokenizers/tiktoken.py
+++ b/src/fairseq2/data/tokenizers/tiktoken.py
@@ -200,7 +200,8 @@ class TiktokenEncoder(TokenEncoder):
 
         b = self._encoding.decode_tokens_bytes(indices)
 
-        return [e.decode("utf-8") for e in b]
+        # A character might be split into multiple tokens.
+        return [e.decode("utf-8", errors="surrogateescape") for e in b]
 
     @property
     @override
@@ -238,7 +239,10 @@ class TiktokenDecoder(TokenDecoder):
 
     @override
     def decode_from_tokens(self, tokens: Sequence[str]) -> str:
-        indices = [self._encoding.encode_single_token(t) for t in tokens]
+        indices = [
+            self._encoding.encode_single_token(t.encode("utf-8", "surrogateescape"))
+            for t in tokens
+        ]
 
         if self._skip_special_tokens:
             indices = [i for i in indices if i < self._num_bpe_tokens]
-- 
2.43.0


From b914d9887f6a1bb84190da12ce94f761514c6c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 097/133] fix: unknown control tokens of Hugging Face
 tokenizers silently replaced by UNK

---
 src/fairseq2/data/tokenizers/hg.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/hg.py b/src/fairseq2/data/tokenizers/hg.py
index 68fd19c..6a74c48 100644
--- a/src/fairseq2/data/tokenizers/hg.py
+++ b/src/fairseq2/data/tokenizers/hg.py
@@ -73,7 +73,13 @@ else:
         for token_type in _TOKEN_TYPES:
             override = token_overrides.get(f"{token_type}_token")
             if override:
-                token_indices[f"{token_type}_idx"] = tok.convert_tokens_to_ids(override)
+                token_idx = tok.convert_tokens_to_ids(override)
+
+                # A token outside of the vocabulary is mapped to UNK.
+                if token_idx == tok.unk_token_id and override != tok.unk_token:
+                    token_idx = None
+
+                token_indices[f"{token_type}_idx"] = token_idx
             else:
                 token_indices[f"{token_type}_idx"] = getattr(
                     tok, f"{token_type}_token_id", None
@@ -146,7 +152,7 @@ class HuggingFaceTokenEncoder(TokenEncoder):
 
         # Prefix
         if prefix_tokens:
-            self._prefix_indices = model.convert_tokens_to_ids(prefix_tokens)
+            self._prefix_indices = _get_token_indices(model, prefix_tokens)
 
             self._prefix_index_pt = to_tensor(
                 self._prefix_indices, dtype=torch.int64, device=device
@@ -158,7 +164,7 @@ class HuggingFaceTokenEncoder(TokenEncoder):
 
         # Suffix
         if suffix_tokens:
-            self._suffix_indices = model.convert_tokens_to_ids(suffix_tokens)
+            self._suffix_indices = _get_token_indices(model, suffix_tokens)
 
             self._suffix_index_pt = to_tensor(
                 self._suffix_indices, dtype=torch.int64, device=device
@@ -206,6 +212,19 @@ class HuggingFaceTokenEncoder(TokenEncoder):
         return self._suffix_index_pt
 
 
+def _get_token_indices(
+    model: HuggingFaceTokenModel, tokens: Sequence[str]
+) -> list[int]:
+    indices = model.convert_tokens_to_ids(list(tokens))
+
+    for token, idx in zip(tokens, indices):
+        # A token outside of the vocabulary is silently mapped to UNK or `None`.
+        if idx is None or model.convert_ids_to_tokens([idx]) != [token]:
+            raise ValueError(f"'{token}' is not in the vocabulary of the tokenizer.")
+
+    return indices
+
+
 @final
 class HuggingFaceTokenDecoder(TokenDecoder):
     def __init__(
-- 
2.43.0


From 21cea19bfe77061cf5b5ff2cabe68508d3a76dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 098/133] fix: options ignored by HgTokenizer after its first
 encoder or decoder

---
 src/fairseq2/models/hg/tokenizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fairseq2/models/hg/tokenizer.py b/src/fairseq2/models/hg/tokenizer.py
index 58590b0..862936b 100644
--- a/src/fairseq2/models/hg/tokenizer.py
+++ b/src/fairseq2/models/hg/tokenizer.py
@@ -95,6 +95,10 @@ class HgTokenizer(Tokenizer):
     def create_raw_encoder(
         self, *, device: Device | None = None, pin_memory: bool = False
     ) -> TokenEncoder:
+        if device is not None or pin_memory:
+            return HuggingFaceTokenEncoder(
+                self._model, device=device, pin_memory=pin_memory
+            )
         if self._encoder is not None:
             return self._encoder
         self._encoder = HuggingFaceTokenEncoder(
@@ -104,6 +108,10 @@ class HgTokenizer(Tokenizer):
 
     @override
     def create_decoder(self, *, skip_special_tokens: bool = False) -> TokenDecoder:
+        if skip_special_tokens:
+            return HuggingFaceTokenDecoder(
+                self._model, skip_special_tokens=skip_special_tokens
+            )
         if self._decoder is not None:
             return self._decoder
         self._decoder = HuggingFaceTokenDecoder(
-- 
2.43.0


From 3e11055efd9d3fa56d6a3753974b1bc9c7b7cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 099/133] fix: invalid Hugging Face tokenizer models not
 reported as such

---
 src/fairseq2/data/tokenizers/hg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/data/tokenizers/hg.py b/src/fairseq2/data/tokenizers/hg.py
index 6a74c48..7adb0dc 100644
--- a/src/fairseq2/data/tokenizers/hg.py
+++ b/src/fairseq2/data/tokenizers/hg.py
@@ -62,7 +62,7 @@ else:
     ) -> HuggingFaceTokenModel:
         try:
             tok = AutoTokenizer.from_pretrained(path)
-        except RuntimeError as ex:
+        except (RuntimeError, ValueError, LookupError) as ex:
             msg = f"{path} is not a valid Hugging Face tokenizer model."
 
             raise TokenizerModelError(path, msg) from ex
-- 
2.43.0


From 2ddce671f789581b35aba7a2162ed6f58aebad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 100/133] fix: generation prompt of Qwen chat template differs
 from its turns

---
 src/fairseq2/models/qwen/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/models/qwen/tokenizer.py b/src/fairseq2/models/qwen/tokenizer.py
index f70075e..f806f98 100644
--- a/src/fairseq2/models/qwen/tokenizer.py
+++ b/src/fairseq2/models/qwen/tokenizer.py
@@ -70,7 +70,7 @@ QWEN_HG_CHAT_TEMPLATE: Final = """{%- if tools %}
                 {%- set content = content.split('</think>')[-1].lstrip('\\n') %}
             {%- endif %}
         {%- endif %}
-        {{- '<|im_start|>' + message.role }}
+        {{- '<|im_start|>' + message.role + '\\n' }}
         {%- generation %}
         {%- if loop.index0 > ns.last_query_index %}
             {%- if loop.last or (not loop.last and reasoning_content) %}
-- 
2.43.0


From 4b3f175620b64688b8f64c7d91970f5fe6bced2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 101/133] fix: files with special characters in their name not
 readable with cat

---
 src/fairseq2/file_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 045c5d9..f7677e9 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -235,7 +235,8 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def cat(self, path: Path) -> bytes:
-        return cast(bytes, self._fsspec.cat(self.get_short_uri(path)))
+        # `cat()` treats the special characters in file names as a glob pattern.
+        return cast(bytes, self._fsspec.cat_file(self.get_short_uri(path)))
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
-- 
2.43.0


From 4511a081bef9c7bf8638055cd00381cf28cafbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 102/133] fix: files not found by glob in directories with
 special characters in their name

---
 src/fairseq2/file_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index f7677e9..adda788 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -12,6 +12,7 @@ from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
 from errno import ENOENT
+from glob import escape
 from os import scandir, strerror
 from pathlib import Path
 from shutil import copytree, rmtree
@@ -296,6 +297,9 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def glob(self, path: Path, pattern: str) -> Iterator[Path]:
+        # Only `pattern` is to be matched, not the special characters in `path`.
+        path = Path(escape(str(path)))
+
         paths = self._fsspec.glob(self.get_short_uri(path.joinpath(pattern)))
         return iter([Path(self.get_long_uri(p)) for p in paths])  # type: ignore
 
-- 
2.43.0


From 27f909b1035288682f4128d9aeccc8663bcf5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 103/133] fix: file or directory moved into an existing
 directory instead of replacing it

---
 src/fairseq2/file_system.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index adda788..61bf240 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -11,7 +11,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
-from errno import ENOENT
+from errno import ENOENT, EXDEV
 from glob import escape
 from os import scandir, strerror
 from pathlib import Path
@@ -241,9 +241,22 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
-        self._fsspec.mv(
-            self.get_short_uri(old_path), self.get_short_uri(new_path), recursive=True
-        )
+        old_uri, new_uri = self.get_short_uri(old_path), self.get_short_uri(new_path)
+
+        # For local filesystem, `mv()` moves into `new_path` if it is a directory.
+        if self.is_local:
+            try:
+                os.replace(
+                    self._fsspec._strip_protocol(old_uri),
+                    self._fsspec._strip_protocol(new_uri),
+                )
+
+                return
+            except OSError as ex:
+                if ex.errno != EXDEV:
+                    raise
+
+        self._fsspec.mv(old_uri, new_uri, recursive=True)
 
     @override
     def remove(self, path: Path) -> None:
-- 
2.43.0


From 1ff849a2d68f63ede0ae62a646693bfeef6548e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 104/133] fix: directory copied into an existing directory
 instead of over it, errors ignored

---
 src/fairseq2/file_system.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 61bf240..db373a7 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -269,11 +269,21 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def copy_directory(self, source_path: Path, target_path: Path) -> None:
-        self._fsspec.copy(
-            self.get_short_uri(source_path),
-            self.get_short_uri(target_path),
-            recursive=True,
-        )
+        source_uri = self.get_short_uri(source_path)
+        target_uri = self.get_short_uri(target_path)
+
+        # For local filesystem, `copy()` copies into `target_path` if it exists,
+        # and ignores errors.
+        if self.is_local:
+            copytree(
+                self._fsspec._strip_protocol(source_uri),
+                self._fsspec._strip_protocol(target_uri),
+                dirs_exist_ok=True,
+            )
+
+            return
+
+        self._fsspec.copy(source_uri, target_uri, recursive=True)
 
     @override
     def copy_from_local(self, local_path: Path, remote_path: Path | str) -> None:
-- 
2.43.0


From 37dd95689c81275646cc43164d9beb9b5a0bfe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 105/133] fix: files removed by remove_directory, errors not
 reported as OSError

---
 src/fairseq2/file_system.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index db373a7..59e19a6 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -11,7 +11,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
-from errno import ENOENT, EXDEV
+from errno import ENOENT, ENOTDIR, EXDEV
 from glob import escape
 from os import scandir, strerror
 from pathlib import Path
@@ -261,7 +261,7 @@ class FSspecFileSystem(FileSystem):
     @override
     def remove(self, path: Path) -> None:
         # only one file !
-        self._fsspec.rm(self.get_short_uri(path), recursive=False)
+        self._fsspec.rm_file(self.get_short_uri(path))
 
     @override
     def make_directory(self, path: Path) -> None:
@@ -316,7 +316,13 @@ class FSspecFileSystem(FileSystem):
     def remove_directory(self, path: Path) -> None:
         # For S3/remote filesystems, rmdir only removes empty directories
         # Use rm with recursive=True to delete directory and all contents
-        self._fsspec.rm(self.get_short_uri(path), recursive=True)
+        uri = self.get_short_uri(path)
+
+        # For local filesystem, `rm()` removes files as well.
+        if self.is_local and self._fsspec.isfile(uri):
+            raise NotADirectoryError(ENOTDIR, strerror(ENOTDIR), str(path))
+
+        self._fsspec.rm(uri, recursive=True)
 
     @override
     def glob(self, path: Path, pattern: str) -> Iterator[Path]:
-- 
2.43.0


From b78dbe367a64e232e506d97c36b1e536d4ac902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 106/133] fix: errors of tensor files not reported as
 documented

---
 src/fairseq2/io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index 747a30e..c55cb41 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -12,7 +12,6 @@ from abc import ABC, abstractmethod
 from collections.abc import Callable, Mapping
 from dataclasses import dataclass
 from pathlib import Path
-from pickle import PickleError
 from typing import TypeAlias, final
 
 import safetensors
@@ -176,7 +175,13 @@ class _TorchTensorFileDumper(TensorFileDumper):
 
             try:
                 torch.save(data, fp, pickle_protocol=options.pickle_protocol)
-            except (RuntimeError, PickleError) as ex:
+            except (OSError, MemoryError):
+                raise
+            except Exception as ex:  # Pickling can fail with almost any error.
+                # `torch.save()` masks the errors of `fp`.
+                if isinstance(ex.__context__, OSError):
+                    raise ex.__context__
+
                 raise DataNotPicklableError() from ex
             finally:
                 fp.close()
-- 
2.43.0


From d081dc096115203c152b3b570ad8d048c3b12155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 107/133] fix: safetensors files with unknown data types not
 reported as corrupt

---
 src/fairseq2/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index c55cb41..8ac4041 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -250,7 +250,9 @@ class _HuggingFaceSafetensorsLoader(SafetensorsLoader):
 
                 for key, tensor in tensors.items():
                     data[key] = tensor.to(device)
-        except (safetensors.SafetensorError, RuntimeError) as ex:
+        except (OSError, MemoryError):
+            raise
+        except Exception as ex:  # e.g. unknown data types are raised as `KeyError`.
             raise CorruptFileError(file) from ex
 
         return data
-- 
2.43.0


From ce09588d3f747b138fa906509054799d51d5607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 108/133] fix: wav2vec2 ASR evaluation fails for outputs with
 only blanks

---
 recipes/wav2vec2/asr/wer_calculator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recipes/wav2vec2/asr/wer_calculator.py b/recipes/wav2vec2/asr/wer_calculator.py
index 2a983b6..b62197d 100644
--- a/recipes/wav2vec2/asr/wer_calculator.py
+++ b/recipes/wav2vec2/asr/wer_calculator.py
@@ -151,6 +151,12 @@ class WerCalculator:
             # (S - blank)
             hyp_seq = hyp_seq[hyp_seq != self._blank_label]
 
+            # A batch cannot hold an empty sequence. If the output is all blank,
+            # use a single PAD instead which is ignored while decoding and has
+            # the same unit distance to a reference.
+            if len(hyp_seq) == 0:
+                hyp_seq = hyp_seq.new_full((1,), self._pad_idx)
+
             hyp_seqs.append(hyp_seq)
 
         # (N, S), (N, S)
-- 
2.43.0


From 4cb12ce54ec0274f1e8d73f9fb0b87a17d79dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 109/133] fix: wav2vec2 ASR error rates below 1% not reported

---
 recipes/wav2vec2/asr/wer_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/wav2vec2/asr/wer_calculator.py b/recipes/wav2vec2/asr/wer_calculator.py
index b62197d..65768f9 100644
--- a/recipes/wav2vec2/asr/wer_calculator.py
+++ b/recipes/wav2vec2/asr/wer_calculator.py
@@ -167,6 +167,6 @@ class WerCalculator:
         value = values.pop(self._wer_key, None)
         if value is not None:
             uer, wer = cast(tuple[Tensor, Tensor], value)
-            if uer >= 1.0 and wer >= 1.0:
+            if uer >= 0.0 and wer >= 0.0:
                 values[self._uer_key] = uer
                 values[self._wer_key] = wer
-- 
2.43.0


From f1f06a1b6679c000fcb28c720d577261788e7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 110/133] fix: reduce_on_backward modifies the gradients of
 other tensors

---
 src/fairseq2/ops/tensor_parallel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/ops/tensor_parallel.py b/src/fairseq2/ops/tensor_parallel.py
index 21264cd..f8a15ba 100644
--- a/src/fairseq2/ops/tensor_parallel.py
+++ b/src/fairseq2/ops/tensor_parallel.py
@@ -102,9 +102,13 @@ class _ReduceOnBackwardFunction(Function):
 
     @staticmethod
     def backward(ctx: Any, grad_output: Tensor) -> tuple[Tensor, None]:
-        ctx.gang.all_reduce(grad_output, ReduceOperation.SUM)
+        # The gradient might be used elsewhere as well, so it must not be modified
+        # in-place.
+        x = grad_output.detach().clone(memory_format=torch.contiguous_format)
 
-        return grad_output, None
+        ctx.gang.all_reduce(x, ReduceOperation.SUM)
+
+        return x, None
 
 
 def _do_scatter(x: Tensor, gang: Gang, dim: int) -> Tensor:
-- 
2.43.0


From d77415c24a920350253d9ea49240551ed9510beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 111/133] fix: tensor parallel operations fail for
 non-contiguous tensors

---
 src/fairseq2/ops/tensor_parallel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/ops/tensor_parallel.py b/src/fairseq2/ops/tensor_parallel.py
index f8a15ba..9af12b2 100644
--- a/src/fairseq2/ops/tensor_parallel.py
+++ b/src/fairseq2/ops/tensor_parallel.py
@@ -29,7 +29,7 @@ def reduce(x: Tensor, gang: Gang) -> Tensor:
 class _ReduceFunction(Function):
     @staticmethod
     def forward(ctx: Any, x: Tensor, gang: Gang) -> Tensor:
-        x = x.detach().clone()
+        x = x.detach().clone(memory_format=torch.contiguous_format)
 
         gang.all_reduce(x, ReduceOperation.SUM)
 
@@ -131,6 +131,9 @@ def _do_gather(x: Tensor, gang: Gang, dim: int) -> Tensor:
     if gang.size == 1:
         return x
 
+    # Collectives require contiguous tensors.
+    x = x.contiguous()
+
     splits = [torch.empty_like(x) for _ in range(gang.size)]
 
     gang.all_gather_to_list(splits, x)
-- 
2.43.0


From ceefce145bb8dc4f9f584abc2067d814e9f7c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 112/133] fix: DauphinFeedForwardNetwork mixes up gate and
 values with tensor parallelism

---
 src/fairseq2/models/transformer/ffn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/ffn.py b/src/fairseq2/models/transformer/ffn.py
index 960adac..afb1222 100644
--- a/src/fairseq2/models/transformer/ffn.py
+++ b/src/fairseq2/models/transformer/ffn.py
@@ -177,7 +177,8 @@ class DauphinFeedForwardNetwork(FeedForwardNetwork):
             model_dim,
             inner_dim * 2,
             bias,
-            gather_output=False,
+            # The gate and the values are the two halves of the whole output.
+            gather_output=True,
             init_fn=proj_init_fn,
             gangs=gangs,
             device=device,
@@ -202,7 +203,7 @@ class DauphinFeedForwardNetwork(FeedForwardNetwork):
             inner_dim,
             model_dim,
             bias,
-            scatter_input=False,
+            scatter_input=True,
             init_fn=proj_init_fn,
             gangs=gangs,
             device=device,
-- 
2.43.0


From c2dd9f3f0354cefb13959414fb052d4a4941f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 113/133] fix: gradients of query and key norms not reduced
 with tensor parallelism

---
 .../models/transformer/multihead_attention.py | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index b56709f..7ec1861 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -14,6 +14,7 @@ from typing import TYPE_CHECKING, Final, Protocol, final
 import torch
 import torch.nn as nn
 from torch import Tensor
+from torch.func import functional_call
 from torch.nn import Module
 from torch.utils.hooks import RemovableHandle
 from typing_extensions import override
@@ -37,6 +38,7 @@ from fairseq2.nn import (
 )
 from fairseq2.nn.utils.module import get_name_or_self
 from fairseq2.ops import repeat_interleave
+from fairseq2.ops.tensor_parallel import reduce_on_backward
 from fairseq2.utils.warn import _warn_deprecated
 
 
@@ -526,7 +528,7 @@ class StandardMultiheadAttention(MultiheadAttention):
         q = q.unflatten(-1, (-1, self.head_dim))
 
         if self.q_norm is not None:
-            q = self.q_norm(q)
+            q = self._normalize(q, self.q_norm, self.q_proj)
 
         if self.pos_encoder is not None:
             q = self.pos_encoder(q, seqs_layout, state_bag=state_bag)
@@ -551,16 +553,34 @@ class StandardMultiheadAttention(MultiheadAttention):
         v = v.unflatten(-1, (-1, self.head_dim))
 
         if self.k_norm is not None:
-            k = self.k_norm(k)
+            k = self._normalize(k, self.k_norm, self.k_proj)
 
         if self.v_norm is not None:
-            v = self.v_norm(v)
+            v = self._normalize(v, self.v_norm, self.v_proj)
 
         if self.pos_encoder is not None:
             k = self.pos_encoder(k, keys_layout, state_bag=state_bag)
 
         return k, v
 
+    @staticmethod
+    def _normalize(x: Tensor, norm: LayerNorm, proj: Projection) -> Tensor:
+        if (
+            not isinstance(proj, ColumnShardedLinear)
+            or not proj.sharded
+            or proj.gather_output
+        ):
+            return norm(x)
+
+        # Each process normalizes only its own heads, so the gradients of the
+        # parameters, which are the same for all heads, have to be reduced.
+        params = {
+            name: reduce_on_backward(param, proj.tp_gang)
+            for name, param in norm.named_parameters()
+        }
+
+        return functional_call(norm, params, x)  # type: ignore[no-any-return]
+
     @override
     def extra_repr(self) -> str:
         """:meta private:"""
-- 
2.43.0


From fab6ee6d52e89fa0b37d97354439aa00467d5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 114/133] fix: gradient norms of tensor parallel models differ
 between processes

---
 src/fairseq2/nn/utils/grad.py | 70 ++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 9da1e2f..a6d5d6a 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -15,11 +15,16 @@ from torch import Tensor
 from torch.autograd import Function
 from torch.distributed.tensor import DTensor
 from torch.nn import Module
-from torch.nn.utils import clip_grad_norm_  # type: ignore[attr-defined]
+from torch.nn.utils import (  # type: ignore[attr-defined]
+    clip_grad_norm_,
+    clip_grads_with_norm_,
+    get_total_norm,
+)
 
 from fairseq2.error import OperationalError
 from fairseq2.gang import Gang, all_sum
 from fairseq2.nn.fsdp import FSDP1Module
+from fairseq2.nn.sharded import Sharded
 
 
 def normalize_grads(module: Module, gang: Gang, num_targets: int) -> None:
@@ -119,6 +124,13 @@ def clip_grad_norm(
                 raise OperationalError("FSDP1 gradient norm clipping failed.") from ex
 
     try:
+        tp_gang, sharded_params = _get_tensor_sharded_params(module)
+
+        if tp_gang is not None:
+            return _clip_tensor_sharded_grad_norm(
+                module, tp_gang, sharded_params, max_norm, norm_type
+            )
+
         grad_norm = clip_grad_norm_(
             module.parameters(), max_norm, norm_type, error_if_nonfinite=False
         )
@@ -133,6 +145,62 @@ def clip_grad_norm(
     return grad_norm  # type: ignore[no-any-return]
 
 
+def _get_tensor_sharded_params(module: Module) -> tuple[Gang | None, set[Tensor]]:
+    tp_gang = None
+
+    params: set[Tensor] = set()
+
+    for m in module.modules():
+        if not isinstance(m, Sharded):
+            continue
+
+        gang = getattr(m, "tp_gang", None)
+        if gang is None or gang.size == 1:
+            continue
+
+        tp_gang = gang
+
+        params.update(param for param, _ in m.get_shard_dims())
+
+    return tp_gang, params
+
+
+def _clip_tensor_sharded_grad_norm(
+    module: Module,
+    tp_gang: Gang,
+    sharded_params: set[Tensor],
+    max_norm: float,
+    norm_type: float,
+) -> Tensor:
+    def get_norm(sharded: bool) -> Tensor:
+        grads = [
+            p.grad
+            for p in module.parameters()
+            if p.grad is not None and (p in sharded_params) == sharded
+        ]
+
+        norm = get_total_norm(grads, norm_type, error_if_nonfinite=False)
+
+        if isinstance(norm, DTensor):
+            norm = norm.full_tensor()
+
+        return norm.to(tp_gang.device)
+
+    # Tensor-sharded gradients are distributed over the processes of the gang,
+    # all others are the same on each process.
+    norms = [torch.empty((), device=tp_gang.device) for _ in range(tp_gang.size)]
+
+    tp_gang.all_gather_to_list(norms, get_norm(sharded=True).float())
+
+    norms.append(get_norm(sharded=False).float())
+
+    grad_norm = torch.linalg.vector_norm(torch.stack(norms), norm_type)
+
+    clip_grads_with_norm_(module.parameters(), max_norm, grad_norm)
+
+    return grad_norm
+
+
 def check_grad_norms(local_norm: Tensor, gang: Gang, step_nr: int) -> None:
     """Sanity check the total gradient norm across all processes.
 
-- 
2.43.0


From 0371b1f3735dc844ae166d3c4256f10aa166b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 115/133] fix: tensor parallel processes use different random
 seeds

---
 src/fairseq2/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 5ee8454..8d1c352 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -349,7 +349,7 @@ class Trainer(Task):
         gangs = self._gangs
 
         with self._progress_reporter:
-            with self._rng_bag.temporary_manual_seed(self._seed + gangs.root.rank):
+            with self._rng_bag.temporary_manual_seed(self._seed + gangs.dp.rank):
                 self._state = self._maybe_restore_state()
 
                 with self._profiler, self._garbage_collector:
-- 
2.43.0


From 82339714ebdd909818786b25d48cfaefc7bf164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 116/133] fix: OLMO models fail with tensor parallelism

---
 src/fairseq2/models/olmo/attention.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/olmo/attention.py b/src/fairseq2/models/olmo/attention.py
index 40204ae..7a1afdd 100644
--- a/src/fairseq2/models/olmo/attention.py
+++ b/src/fairseq2/models/olmo/attention.py
@@ -38,6 +38,7 @@ from fairseq2.nn import (
 )
 from fairseq2.nn.utils.module import get_name_or_self
 from fairseq2.ops import repeat_interleave
+from fairseq2.ops.tensor_parallel import gather, scatter
 
 
 @final
@@ -200,14 +201,14 @@ class OLMOMultiheadAttention(MultiheadAttention):
         # Q: (N, S, K_proj) -> norm -> (N, S, H, K_h)
         q = self.q_proj(seqs)
         if self.q_norm is not None:
-            q = self.q_norm(q)
+            q = self._normalize(q, self.q_norm, self.q_proj)
         q = q.unflatten(-1, (-1, self.head_dim))
 
         # K, V: (N, S, K_proj) -> norm -> (N, S, H, K_h)
         k = self.k_proj(keys)
         v = self.v_proj(values)
         if self.k_norm is not None:
-            k = self.k_norm(k)
+            k = self._normalize(k, self.k_norm, self.k_proj)
         k = k.unflatten(-1, (-1, self.head_dim))
         v = v.unflatten(-1, (-1, self.head_dim))
 
@@ -260,6 +261,23 @@ class OLMOMultiheadAttention(MultiheadAttention):
         # Output projection: (N, S, V_proj) -> (N, S, M)
         return self.output_proj(attns)
 
+    @staticmethod
+    def _normalize(x: Tensor, norm: LayerNorm, proj: Projection) -> Tensor:
+        if (
+            not isinstance(proj, ColumnShardedLinear)
+            or not proj.sharded
+            or proj.gather_output
+        ):
+            return norm(x)
+
+        # The normalization is over all heads, but each process holds only its
+        # own heads.
+        x = gather(x, proj.tp_gang, dim=-1)
+
+        x = norm(x)
+
+        return scatter(x, proj.tp_gang, dim=-1)
+
     @override
     def extra_repr(self) -> str:
         """:meta private:"""
-- 
2.43.0


From 77bac9d8d02cf705bfb8011a01b22756df39df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 117/133] fix: examples of Python iterators lost in data
 pipelines

---
 .../fairseq2n/bindings/data/data_pipeline.cc  |  8 ++-
 .../bindings/data/iterator_data_source.cc     | 51 ++++++++++---------
 .../bindings/data/iterator_data_source.h      | 22 +++-----
 3 files changed, 42 insertions(+), 39 deletions(-)

diff --git a/native/python/src/fairseq2n/bindings/data/data_pipeline.cc b/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
index 0fe5655..efb42bc 100644
--- a/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
+++ b/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
@@ -698,9 +698,13 @@ def_data_pipeline(py::module_ &data_module)
                             throw;
                     }
                 }
-                auto factory = [iterator = std::move(iterator), fn = std::move(fn), infinite]() mutable
+                // The factory might be called, copied, or destructed without holding
+                // the GIL.
+                py_object obj{iterator.release().ptr(), /*steal=*/true};
+
+                auto factory = [obj = std::move(obj), fn = std::move(fn), infinite]() mutable
                 {
-                    return std::make_unique<iterator_data_source>(std::move(iterator), std::move(fn), infinite);
+                    return std::make_unique<iterator_data_source>(std::move(obj), std::move(fn), infinite);
                 };
 
                 return data_pipeline_builder{std::move(factory)};
diff --git a/native/python/src/fairseq2n/bindings/data/iterator_data_source.cc b/native/python/src/fairseq2n/bindings/data/iterator_data_source.cc
index ceb9d79..f42bfb1 100644
--- a/native/python/src/fairseq2n/bindings/data/iterator_data_source.cc
+++ b/native/python/src/fairseq2n/bindings/data/iterator_data_source.cc
@@ -16,28 +16,31 @@ iterator_data_source::next()
     py::gil_scoped_acquire acquire;
 
     if (reset_) {
+        py::iterator it = iterator();
 
-        reloaded_ = false;
-        reset_ = false;
-        *iterator_ = reset_fn_(*iterator_);
-        ++*iterator_;
+        it = reset_fn_(it);
 
-    } else if (reloaded_) {
-        // Saving/reloading the iterator may skip over an example,
-        // so we check if this iterator has been reloaded and 
-        // return the potentially missing example here.
+        iterator_ = py_object{it.ptr()};
 
-        if (to_return_) {
-            reloaded_ = false;
-        }
-        return to_return_;
+        to_return_ = std::nullopt;
 
+        reset_ = false;
     }
 
-    if (*iterator_ == py::iterator::sentinel()) {
+    // Example that had already been read from the iterator when its state was
+    // saved.
+    if (to_return_)
+        return std::exchange(to_return_, std::nullopt);
+
+    PyObject *example = PyIter_Next(static_cast<PyObject *>(iterator_.ptr()));
+    if (example == nullptr) {
+        if (PyErr_Occurred() != nullptr)
+            throw py::error_already_set();
+
         return std::nullopt;
     }
-    return (*iterator_)++->cast<py_object>();
+
+    return py_object{example, /*steal=*/true};
 }
 
 void
@@ -51,15 +54,10 @@ iterator_data_source::record_position(tape &t, bool) const
 {
     py::gil_scoped_acquire acquire;
 
-    std::optional<data> to_return;
-    if (*iterator_ != py::iterator::sentinel()) {
-        to_return = (*iterator_)->cast<py_object>();
-    }
-
     py::function pickle_dump_fn = py::module::import("pickle").attr("dumps");
-    t.record(pickle_dump_fn(*iterator_).cast<py_object>());
+    t.record(pickle_dump_fn(iterator()).cast<py_object>());
 
-    t.record(to_return);
+    t.record(to_return_);
 
     t.record(reset_);
 }
@@ -71,13 +69,20 @@ iterator_data_source::reload_position(tape &t, bool)
 
     py::function pickle_load_fn = py::module::import("pickle").attr("loads");
     const auto& pickled_iterator = py::cast(t.read<py_object>());
-    *iterator_ = pickle_load_fn(pickled_iterator);
+    py::iterator it = pickle_load_fn(pickled_iterator);
+
+    iterator_ = py_object{it.ptr()};
 
     to_return_ = t.read<std::optional<data>>();
 
     reset_ = t.read<bool>();
+}
 
-    reloaded_ = true;
+py::iterator
+iterator_data_source::iterator() const
+{
+    return py::reinterpret_borrow<py::iterator>(
+        py::handle{static_cast<PyObject *>(iterator_.ptr())});
 }
 
 data_source_finitude_type
diff --git a/native/python/src/fairseq2n/bindings/data/iterator_data_source.h b/native/python/src/fairseq2n/bindings/data/iterator_data_source.h
index 13f75c8..56962ff 100644
--- a/native/python/src/fairseq2n/bindings/data/iterator_data_source.h
+++ b/native/python/src/fairseq2n/bindings/data/iterator_data_source.h
@@ -23,10 +23,10 @@ class iterator_data_source final : public data_source {
 public:
     explicit
     iterator_data_source(
-        py::iterator &&iterator, 
-        reset_fn &&fn, 
+        py_object &&iterator,
+        reset_fn &&fn,
         bool infinite)
-      : iterator_{new py::iterator{std::move(iterator)}},
+      : iterator_{std::move(iterator)},
         reset_fn_{std::move(fn)},
         infinite_{infinite}
     {
@@ -49,20 +49,14 @@ public:
     finitude_type() const noexcept override;
 
 private:
-    struct iterator_deleter {
-        void operator()(py::iterator* it) {
-            py::gil_scoped_acquire acquire;
+    py::iterator
+    iterator() const;
 
-            // NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
-            delete it;
-        }
-    };
-
-    std::unique_ptr<py::iterator,  iterator_deleter> iterator_;
+private:
+    py_object iterator_;
     reset_fn reset_fn_;
     bool infinite_;
-    std::optional<data> to_return_;
-    bool reloaded_{false};
+    std::optional<data> to_return_{};
     bool reset_{false};
 };
 
-- 
2.43.0


From 09092ecefd012a5ff3430a12061568f3d3becd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 118/133] fix: lengths of text columns cannot be computed

---
 src/fairseq2/data/parquet/table_bucketing/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/data/parquet/table_bucketing/primitives.py b/src/fairseq2/data/parquet/table_bucketing/primitives.py
index 7851818..1002531 100644
--- a/src/fairseq2/data/parquet/table_bucketing/primitives.py
+++ b/src/fairseq2/data/parquet/table_bucketing/primitives.py
@@ -99,9 +99,9 @@ def compute_rows_length(
         length_col = (
             pc.list_value_length(pa_array).to_numpy(zero_copy_only=False).copy()
         )
-    elif pa.types.is_string(type_):
+    elif pa.types.is_string(type_) or pa.types.is_large_string(type_):
         # TODO: use polars to compute chat length
-        length_col = pc.utf8_length(pa_array).to_numpy().copy(zero_copy_only=False)
+        length_col = pc.utf8_length(pa_array).to_numpy(zero_copy_only=False).copy()
     else:
         length_col = np.asarray(pa_array.to_pandas().apply(len), dtype=np.int32)
 
-- 
2.43.0


From fd34d4e6e9cf475ee084f65384e46be7da472238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 119/133] fix: empty and null lists kept or dropped depending
 on other rows

---
 src/fairseq2/data/parquet/arrow_transform.py | 33 ++++++++++++++------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/fairseq2/data/parquet/arrow_transform.py b/src/fairseq2/data/parquet/arrow_transform.py
index dac62f3..e4364a6 100644
--- a/src/fairseq2/data/parquet/arrow_transform.py
+++ b/src/fairseq2/data/parquet/arrow_transform.py
@@ -217,12 +217,21 @@ def filter_strings_by_length(
     # and take the 'list.min()' and 'list.max()' as needed.
     filter_series = df_pl.with_columns(
         (
-            (pl.col(column).list.eval(pl.col("").str.len_chars()).list.min() >= min_len)
-            & (
-                pl.col(column).list.eval(pl.col("").str.len_chars()).list.max()
-                <= max_len
+            (
+                (
+                    pl.col(column).list.eval(pl.col("").str.len_chars()).list.min()
+                    >= min_len
+                )
+                & (
+                    pl.col(column).list.eval(pl.col("").str.len_chars()).list.max()
+                    <= max_len
+                )
             )
-        ).alias("mask")
+            # Empty lists have neither a minimum nor a maximum.
+            | (pl.col(column).list.len() == 0)
+        )
+        .fill_null(False)
+        .alias("mask")
     )["mask"].to_arrow()
 
     # If all rows pass, return the original table
@@ -279,9 +288,15 @@ def filter_list_by_range(
     # (list.max() <= max_val) AND (list.min() >= min_val)
     filter_series = df_pl.with_columns(
         (
-            (pl.col(column).list.max() <= max_val)
-            & (pl.col(column).list.min() >= min_val)
-        ).alias("mask")
+            (
+                (pl.col(column).list.max() <= max_val)
+                & (pl.col(column).list.min() >= min_val)
+            )
+            # Empty lists have neither a minimum nor a maximum.
+            | (pl.col(column).list.len() == 0)
+        )
+        .fill_null(False)
+        .alias("mask")
     )["mask"].to_arrow()
 
     # If all rows pass, return the table unchanged
@@ -301,7 +316,7 @@ def filter_list_with_min_max_length(
     def _length_filter(column):
         filter_min = pc.greater_equal(pc.list_value_length(table[column]), min_length)
         filter_max = pc.less_equal(pc.list_value_length(table[column]), max_length)
-        filter_ = pc.and_kleene(filter_min, filter_max)
+        filter_ = pc.fill_null(pc.and_kleene(filter_min, filter_max), False)
 
         if pc.all(filter_).as_py():
             return table
-- 
2.43.0


From ba7dafbf86d0041d8af3ac2dd31f873824b69a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 120/133] fix: parquet filters on unselected columns fail

---
 .../data/parquet/fragment_loading/builder.py  | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/data/parquet/fragment_loading/builder.py b/src/fairseq2/data/parquet/fragment_loading/builder.py
index bbf650f..15ed294 100644
--- a/src/fairseq2/data/parquet/fragment_loading/builder.py
+++ b/src/fairseq2/data/parquet/fragment_loading/builder.py
@@ -13,6 +13,7 @@ from pickle import dumps, loads
 from typing import List, Optional
 
 import pyarrow as pa
+from pyarrow.dataset import get_partition_keys  # requires pyarrow >= 13
 from retrying import retry
 
 from fairseq2.data.data_pipeline import DataPipelineBuilder
@@ -96,6 +97,29 @@ class SafeFragment:
             except pa.ArrowInvalid:
                 pass
 
+        selected_columns = None
+        if (
+            filters is not None
+            and not can_apply_on_phyiscal_schema
+            and columns is not None
+        ):
+            # The filters are applied after loading, but they might refer to
+            # columns that are not selected.
+            probe = physical_schema.empty_table().select(
+                [col for col in fragment_columns if col in physical_schema.names]
+            )
+            if add_partitioning_columns:
+                probe = add_partitioning_values(probe, self.fragment, columns)
+            try:
+                _ = probe.filter(filters)
+            except pa.ArrowInvalid:
+                selected_columns = fragment_columns
+                fragment_columns = fragment_columns + [
+                    col
+                    for col in physical_schema.names
+                    if col not in fragment_columns
+                ]
+
         try:
             fragment_table = self.fragment.to_table(
                 columns=fragment_columns,
@@ -116,7 +140,9 @@ class SafeFragment:
 
         if add_partitioning_columns:
             fragment_table = add_partitioning_values(
-                fragment_table, self.fragment, columns
+                fragment_table,
+                self.fragment,
+                columns if selected_columns is None else None,
             )
         if add_fragment_traces:
             fragment_table = add_fragments_trace(fragment_table, self.fragment)
@@ -124,6 +150,15 @@ class SafeFragment:
         # otherwise, apply filters on full schema
         if filters is not None and not can_apply_on_phyiscal_schema:
             fragment_table = fragment_table.filter(filters)
+
+        if selected_columns is not None:
+            dropped_columns = set(physical_schema.names)
+            dropped_columns.update(
+                get_partition_keys(self.fragment.partition_expression)
+            )
+            dropped_columns.difference_update(selected_columns, columns)
+            fragment_table = fragment_table.drop_columns(list(dropped_columns))
+
         return fragment_table
 
 
-- 
2.43.0


From 9eca49c0b7eefb44e2a805997317dbde84bc9219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 121/133] fix: tables with timestamps cannot be converted to
 tensors

---
 src/fairseq2/data/parquet/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/data/parquet/utils.py b/src/fairseq2/data/parquet/utils.py
index 9901f61..6a174db 100644
--- a/src/fairseq2/data/parquet/utils.py
+++ b/src/fairseq2/data/parquet/utils.py
@@ -69,7 +69,7 @@ def pyarrow_to_torch_tensor(
 
     try:
         return torch.from_numpy(arr.to_numpy(zero_copy_only=True))
-    except pa.ArrowInvalid:
+    except (pa.ArrowInvalid, TypeError):
         pass
 
     if pa.types.is_dictionary(arr_type):
-- 
2.43.0


From aca87a5334077086d586a7950cc68ff68da55f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 122/133] fix: wrong rows of sliced fixed size lists converted
 to tensors

---
 src/fairseq2/data/parquet/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/data/parquet/utils.py b/src/fairseq2/data/parquet/utils.py
index 6a174db..1a2ee5c 100644
--- a/src/fairseq2/data/parquet/utils.py
+++ b/src/fairseq2/data/parquet/utils.py
@@ -98,7 +98,10 @@ def pyarrow_to_torch_tensor(
 
     if pa.types.is_fixed_size_list(arr_type):
         if pa.types.is_primitive(arr_type.value_type):
-            return torch.from_numpy(np.reshape(arr.values, (-1, arr_type.list_size)))
+            # Unlike `values`, `flatten()` takes the offset of `arr` into account.
+            return torch.from_numpy(
+                np.reshape(arr.flatten(), (-1, arr_type.list_size))
+            )
 
     if pa.types.is_struct(arr_type):
         return {
-- 
2.43.0


From d03610a5f3a687217fba5afeba6e46d1a76b73de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 123/133] fix: rows lost or repeated after restoring a shuffled
 parquet pipeline

---
 .../data/parquet/table_bucketing/builder.py   | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/fairseq2/data/parquet/table_bucketing/builder.py b/src/fairseq2/data/parquet/table_bucketing/builder.py
index 39b8d72..758d044 100644
--- a/src/fairseq2/data/parquet/table_bucketing/builder.py
+++ b/src/fairseq2/data/parquet/table_bucketing/builder.py
@@ -119,14 +119,25 @@ class TableBucketer:
             Path(cache_dir).mkdir(parents=True, exist_ok=True)
             pipeline = pipeline.map(partial(table_to_mmap_table, cache_dir=cache_dir))
 
-        pipeline = pipeline.prefetch(self.config.nb_prefetch)
-        # do some mini-batch dispatch
-        if (
+        do_mini_batches = (
             self.config.total_batch_length is not None
             or self.config.batch_size is not None
-        ):
+        )
+
+        if do_mini_batches:
+            # The seed must stay with its table; otherwise, the batches of a table
+            # would be in a different order after restoring the pipeline.
+            pipeline = pipeline.map(
+                lambda table: (table, int(random_state.randint(0, 2**32)))
+            )
+
+        pipeline = pipeline.prefetch(self.config.nb_prefetch)
+        # do some mini-batch dispatch
+        if do_mini_batches:
+
+            def mini_batch_iterator(input_: tuple[pa.Table, int]) -> DataPipeline:
+                table, seed = input_
 
-            def mini_batch_iterator(table: pa.Table) -> DataPipeline:
                 return build_batching_loop_over_one_table(
                     table=table,
                     order_by_length=self.config.order_by_length,
@@ -134,7 +145,7 @@ class TableBucketer:
                     batch_size=self.config.batch_size,
                     max_tokens=self.config.total_batch_length,
                     shuffle=self.config.shuffle,
-                    seed=random_state.randint(0, 2**32),
+                    seed=seed,
                     len_reducer=self.config.length_reducer,
                     drop_long_sample=self.config.drop_long_seq,
                     num_parallel_calls=self.config.num_parallel_calls,
-- 
2.43.0


From 30bd0120b4a352c8c43c37c49a9848b7866813ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 124/133] fix: parquet batching fails if a length column is
 None

---
 src/fairseq2/data/parquet/table_bucketing/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/data/parquet/table_bucketing/primitives.py b/src/fairseq2/data/parquet/table_bucketing/primitives.py
index 1002531..324b1fe 100644
--- a/src/fairseq2/data/parquet/table_bucketing/primitives.py
+++ b/src/fairseq2/data/parquet/table_bucketing/primitives.py
@@ -139,6 +139,10 @@ def build_batching_loop_over_one_table(
 
     random_state = np.random.RandomState(seed)
 
+    if length_columns is not None:
+        # `None` columns are ignored.
+        length_columns = [lc for lc in length_columns if lc is not None]
+
     multiple_length_reducer = {"max": np.maximum, "min": np.minimum, "sum": np.add}
 
     if length_columns is not None and len(length_columns) > 0:
-- 
2.43.0


From e90255fb803d25c220b17a2854288ffbea4a11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 125/133] fix: null lists of sliced columns turned into empty
 lists

---
 src/fairseq2/data/parquet/arrow_transform.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/data/parquet/arrow_transform.py b/src/fairseq2/data/parquet/arrow_transform.py
index e4364a6..c55b00a 100644
--- a/src/fairseq2/data/parquet/arrow_transform.py
+++ b/src/fairseq2/data/parquet/arrow_transform.py
@@ -32,12 +32,25 @@ def _fix_list_offset(arr: pa.Array) -> pa.Array:
         return arr
 
     new_values = _fix_list_offset(pc.list_flatten(arr))
-    new_offsets = pc.subtract(arr.offsets, arr.offsets[0])
+
+    if arr.null_count > 0:
+        # `list_flatten()` skips null lists.
+        lengths = pc.fill_null(pc.list_value_length(arr), 0)
+
+        new_offsets = pa.concat_arrays(
+            [pa.array([0], lengths.type), pc.cumulative_sum(lengths)]
+        )
+
+        mask = arr.is_null()
+    else:
+        new_offsets = pc.subtract(arr.offsets, arr.offsets[0])
+
+        mask = None
 
     return (
-        pa.LargeListArray.from_arrays(new_offsets, new_values)
+        pa.LargeListArray.from_arrays(new_offsets, new_values, mask=mask)
         if pa.types.is_large_list(arr.type)
-        else pa.ListArray.from_arrays(new_offsets, new_values)
+        else pa.ListArray.from_arrays(new_offsets, new_values, mask=mask)
     )
 
 
-- 
2.43.0


From 5078d299bed1f671b9d99606b9bc05d750382df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 126/133] fix: parquet batches too large for lengths in small
 integer columns

---
 src/fairseq2/data/parquet/table_bucketing/primitives.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/data/parquet/table_bucketing/primitives.py b/src/fairseq2/data/parquet/table_bucketing/primitives.py
index 324b1fe..a614853 100644
--- a/src/fairseq2/data/parquet/table_bucketing/primitives.py
+++ b/src/fairseq2/data/parquet/table_bucketing/primitives.py
@@ -106,6 +106,11 @@ def compute_rows_length(
         length_col = np.asarray(pa_array.to_pandas().apply(len), dtype=np.int32)
 
     length_col[np.isnan(length_col)] = 0
+
+    # Lengths get added and multiplied, so do not keep small integer types.
+    if length_col.dtype.kind in "iu":
+        length_col = length_col.astype(np.int64)
+
     return length_col
 
 
-- 
2.43.0


From 14d7c6195e8aa066194a3dbd687f99a7674318c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 127/133] fix: recipes fail if their lr_scheduler section is
 None

---
 src/fairseq2/recipe/composition/lr_schedulers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fairseq2/recipe/composition/lr_schedulers.py b/src/fairseq2/recipe/composition/lr_schedulers.py
index 4744944..a6998a9 100644
--- a/src/fairseq2/recipe/composition/lr_schedulers.py
+++ b/src/fairseq2/recipe/composition/lr_schedulers.py
@@ -25,6 +25,7 @@ from fairseq2.recipe.config import (
     PolynomialDecayLRConfig,
     TriStageLRConfig,
 )
+from fairseq2.recipe.internal.config import _RecipeConfigHolder
 from fairseq2.recipe.internal.lr_schedulers import (
     _CosineAnnealingLRFactory,
     _LRSchedulerFactory,
@@ -39,6 +40,12 @@ from fairseq2.runtime.dependency import DependencyContainer, DependencyResolver
 def _register_lr_schedulers(container: DependencyContainer) -> None:
     # LRScheduler
     def create_lr_scheduler(resolver: DependencyResolver) -> LRScheduler:
+        config_holder = resolver.resolve(_RecipeConfigHolder)
+
+        # Recipes are allowed to have an optional `lr_scheduler` section.
+        if getattr(config_holder.config, "lr_scheduler", ...) is None:
+            return PassthroughLR(resolver.resolve(Optimizer))
+
         lr_factory = resolver.resolve(_LRSchedulerFactory)
 
         return lr_factory.create()
-- 
2.43.0


From e6e22e8bf721af5a4fcb681a48ec17f00acfdb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 128/133] fix: FSDP models not initialized if there are only
 model checkpoints

The trainer cannot resume from a checkpoint that holds only the model and
starts from scratch, therefore the model has to be initialized on all ranks.
---
 src/fairseq2/recipe/internal/data_parallel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/recipe/internal/data_parallel.py b/src/fairseq2/recipe/internal/data_parallel.py
index 3afb3f5..600d826 100644
--- a/src/fairseq2/recipe/internal/data_parallel.py
+++ b/src/fairseq2/recipe/internal/data_parallel.py
@@ -151,7 +151,9 @@ class _FSDPModelWrapper(_DataParallelModelWrapper):
         else:
             mp_dtype = None
 
-        has_checkpoint = self._checkpoint_manager.has_checkpoint()
+        has_checkpoint = self._checkpoint_manager.has_checkpoint(
+            exclude_model_only=True
+        )
 
         if self._section.fsdp.version == "v1":
             if has_checkpoint:
-- 
2.43.0


From a2dc51fe5b3a63a5ec2ea091c5aa9a58236a49c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 129/133] fix: optimizer parameter groups depend on wrappers of
 the model

Patterns such as `encoder\..*` did not match anymore if the model was trained
with DDP or FSDP1, or with activation checkpointing.
---
 src/fairseq2/recipe/optim.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fairseq2/recipe/optim.py b/src/fairseq2/recipe/optim.py
index c7b372c..8303d92 100644
--- a/src/fairseq2/recipe/optim.py
+++ b/src/fairseq2/recipe/optim.py
@@ -20,9 +20,11 @@ from __future__ import annotations
 import re
 from collections.abc import Iterable, Sequence
 from dataclasses import dataclass, fields
+from typing import Final
 
 from torch import Tensor
 from torch.nn import Module, Parameter
+from torch.nn.parallel import DistributedDataParallel as DDPModule
 
 from fairseq2.logging import log
 from fairseq2.recipe.config import ParameterGroupConfig, default
@@ -155,7 +157,15 @@ def prepare_parameter_groups(
 
     groups.append(group)
 
+    # Ensure that the name of a parameter does not depend on whether the model is
+    # wrapped for, e.g. data parallelism or activation checkpointing.
+    if isinstance(model, DDPModule):
+        model = model.module
+
     for name, param in model.named_parameters():
+        for prefix in _WRAPPER_PREFIXES:
+            name = name.replace(prefix, "")
+
         for group in groups:
             if any(name == p or re.match(p, name) for p in group.name_patterns):
                 group.params.append(param)
@@ -183,6 +193,10 @@ def prepare_parameter_groups(
     return output
 
 
+# The name prefixes added by FSDP1 and activation checkpointing.
+_WRAPPER_PREFIXES: Final = ("_fsdp_wrapped_module.", "_checkpoint_wrapped_module.")
+
+
 # Used by `prepare_parameter_groups` for internal bookkeeping.
 @dataclass
 class _ParameterGroup:
-- 
2.43.0


From 5e342c6da15ab72cf6845a235bbbcfa287f7554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 130/133] fix: FSDP1 validation fails for floating-point inputs
 with mixed precision

While the parameters are summoned, the forward pass of the root FSDP module is
bypassed and its inputs were not cast to the data type of the parameters.
---
 src/fairseq2/nn/fsdp/fsdp1.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/fsdp/fsdp1.py b/src/fairseq2/nn/fsdp/fsdp1.py
index 306a8ef..9439130 100644
--- a/src/fairseq2/nn/fsdp/fsdp1.py
+++ b/src/fairseq2/nn/fsdp/fsdp1.py
@@ -10,7 +10,7 @@ import logging
 import warnings
 from collections.abc import Iterator
 from contextlib import contextmanager
-from typing import TypeAlias
+from typing import Any, TypeAlias
 
 import torch
 from torch import Tensor
@@ -26,6 +26,7 @@ from torch.distributed.fsdp.api import (
     ShardingStrategy,
     StateDictType,
 )
+from torch.distributed.utils import _cast_forward_inputs
 from torch.nn import Module, Parameter, SyncBatchNorm
 
 from fairseq2.data_type import DataType
@@ -250,6 +251,16 @@ def fsdp1_summon_full_parameters(module: FSDP1Module) -> Iterator[None]:
 
                 setattr(m, "forward", m.module.__call__)
 
+        # In a regular forward pass, FSDP casts the inputs of the root module to
+        # the data type of the parameters.
+        if mp.param_dtype is not None and mp.cast_root_forward_inputs:
+            setattr(module, "forward", cast_inputs_and_call)
+
+    def cast_inputs_and_call(*args: Any, **kwargs: Any) -> Any:
+        args, kwargs = _cast_forward_inputs(mp.param_dtype, *args, **kwargs)
+
+        return module.module(*args, **kwargs)
+
     def enable_fsdp_forward(module: Module) -> None:
         for m in module.modules():
             if isinstance(m, FSDP1Module):
-- 
2.43.0


From ae703df38c374a2e1a8d5d1184d9c8b5d13fa436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 131/133] fix: LM SFT fails on short examples with length
 batching

---
 recipes/lm/sft/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/lm/sft/dataset.py b/recipes/lm/sft/dataset.py
index 65540d3..eef9b07 100644
--- a/recipes/lm/sft/dataset.py
+++ b/recipes/lm/sft/dataset.py
@@ -270,6 +270,7 @@ class LMSFTDataset:
                 bucket_sizes,
                 selector="indices",
                 min_data_len=min_seq_len,
+                skip_below_min_examples=True,
                 skip_above_max_examples=True,
                 drop_remainder=options.drop_remainder,
             )
-- 
2.43.0


From 2b8e8fefec8edc0c75d214c767f010f8e99bca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:10 +0000
Subject: [PATCH 132/133] fix: checkpoint_path and tokenizer_path rejected if
 the download has links

---
 src/fairseq2/data/tokenizers/family.py | 12 +++++-------
 src/fairseq2/models/family.py          | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/family.py b/src/fairseq2/data/tokenizers/family.py
index 087fc28..54b94c2 100644
--- a/src/fairseq2/data/tokenizers/family.py
+++ b/src/fairseq2/data/tokenizers/family.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+import os
 from abc import ABC, abstractmethod
 from pathlib import Path
 from typing import Any, Final, Protocol, TypeVar, final
@@ -254,14 +255,11 @@ class StandardTokenizerFamily(TokenizerFamily):
         if sub_path_field is not None:
             sub_pathname = sub_path_field.as_(str)
 
-            path = cached_path.joinpath(sub_pathname)
+            # Do not resolve symbolic links, the download directory itself or, as
+            # in Hugging Face snapshots, its files can be links.
+            path = Path(os.path.normpath(cached_path.joinpath(sub_pathname)))
 
-            try:
-                path = self._file_system.resolve(path)
-            except OSError as ex:
-                raise_operational_system_error(ex)
-
-            if not path.is_relative_to(cached_path):
+            if not path.is_relative_to(os.path.normpath(cached_path)):
                 msg = f"tokenizer_path field of the {name} asset card points to a path that is not relative to the download directory."
 
                 raise AssetCardError(name, msg)
diff --git a/src/fairseq2/models/family.py b/src/fairseq2/models/family.py
index 922889c..d128e01 100644
--- a/src/fairseq2/models/family.py
+++ b/src/fairseq2/models/family.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+import os
 from abc import ABC, abstractmethod
 from collections.abc import Iterator, Mapping, Sequence
 from dataclasses import dataclass
@@ -485,14 +486,11 @@ class StandardModelFamily(ModelFamily):
         if sub_path_field is not None:
             sub_pathname = sub_path_field.as_(str)
 
-            path = cached_path.joinpath(sub_pathname)
+            # Do not resolve symbolic links, the download directory itself or, as
+            # in Hugging Face snapshots, its files can be links.
+            path = Path(os.path.normpath(cached_path.joinpath(sub_pathname)))
 
-            try:
-                path = self._file_system.resolve(path)
-            except OSError as ex:
-                raise_operational_system_error(ex)
-
-            if not path.is_relative_to(cached_path):
+            if not path.is_relative_to(os.path.normpath(cached_path)):
                 msg = f"checkpoint_path field of the {name} asset card points to a path that is not relative to the download directory."
 
                 raise AssetCardError(name, msg)
-- 
2.43.0


From 5553eefe9aac1dc10fec56d95449717ac2442fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 133/133] fix: ModelHub.iter_checkpoint fails if gangs are
 specified

---
 src/fairseq2/models/hub.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/hub.py b/src/fairseq2/models/hub.py
index 2caa53b..d057825 100644
--- a/src/fairseq2/models/hub.py
+++ b/src/fairseq2/models/hub.py
@@ -538,7 +538,8 @@ class ModelHub(Generic[ModelT, ModelConfigT]):
 
         :raises ModelCheckpointError: If the checkpoint format is not valid.
         """
-        gangs = _get_effective_gangs(gangs, device=CPU)
+        if gangs is None:
+            gangs = create_fake_gangs(CPU)
 
         return self._family.iter_checkpoint(path, config, gangs, mmap, restrict)
 
-- 
2.43.0

