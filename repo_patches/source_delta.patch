From d9b703c99513ea1a9060312cbf2335b606201b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 01/14] fix: OneShotTimer::FireNow() keeps a restart made by
 the task

FireNow() cleared the running flag after the task had returned, so a Start()
made by the task itself was lost, and a timer destroyed by its task was written
to after its destruction. RunTask() already clears the flag before the call.
---
 rst/timer/one_shot_timer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rst/timer/one_shot_timer.cc b/rst/timer/one_shot_timer.cc
index 95c7735..ff696ae 100644
--- a/rst/timer/one_shot_timer.cc
+++ b/rst/timer/one_shot_timer.cc
@@ -54,7 +54,6 @@ void OneShotTimer::Start(std::function<void()>&& task,
 void OneShotTimer::FireNow() {
   RST_DCHECK(IsRunning());
   RunTask(task_id_);
-  is_running_ = false;
 }
 
 void OneShotTimer::RunTask(const uint64_t task_id) {
-- 
2.43.0


From 949b0ac808d083c03dd73c5240ffd2618c102055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 02/14] fix: an expiring pool thread does not leave a just
 posted task behind

A worker whose keep-alive wait timed out ended although a task had been
pushed meanwhile, and a task pushed between its decision to end and its
removal from the thread map found the map full. Nobody ran the task until
some later post.
---
 rst/task_runner/thread_pool_task_runner.cc | 54 +++++++++++-----------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 660d320..a93844d 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -55,9 +55,10 @@ ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
 
 void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   std::function<void()> task;
+  std::unique_lock lock(thread_mutex_);
+  // Runs with |thread_mutex_| locked, so that no task can be pushed between the
+  // decision to exit and the removal of the thread.
   RST_DEFER([this]() {
-    std::lock_guard lock(thread_mutex_);
-
     const auto it = thread_id_to_thread_map_.find(std::this_thread::get_id());
     RST_DCHECK(it != thread_id_to_thread_map_.cend());
     it->second.detach();
@@ -67,42 +68,41 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   });
 
   while (true) {
-    auto had_items = false;
+    while (tasks_.empty() && !should_exit_) {
+      waiting_threads_num_++;
+      RST_DEFER([this]() { waiting_threads_num_--; });
 
-    {
-      std::unique_lock lock(thread_mutex_);
-
-      while (tasks_.empty() && !should_exit_) {
-        waiting_threads_num_++;
-        RST_DEFER([this]() { waiting_threads_num_--; });
-
-        if (thread_cv_.wait_for(lock, keep_alive_time_) ==
-            std::cv_status::timeout) {
-          return;
-        }
-      }
-
-      if (should_exit_)
+      if (thread_cv_.wait_for(lock, keep_alive_time_) ==
+              std::cv_status::timeout &&
+          tasks_.empty()) {
         return;
-
-      RST_DCHECK(!tasks_.empty());
-      auto& front = tasks_.front();
-      if (front.iterations == 0) {
-        task = std::move(front.task);
-        tasks_.pop();
-      } else {
-        task = front.task;
-        front.iterations--;
       }
+    }
 
-      had_items = !tasks_.empty();
+    if (should_exit_)
+      return;
+
+    RST_DCHECK(!tasks_.empty());
+    auto& front = tasks_.front();
+    if (front.iterations == 0) {
+      task = std::move(front.task);
+      tasks_.pop();
+    } else {
+      task = front.task;
+      front.iterations--;
     }
 
+    const auto had_items = !tasks_.empty();
+
+    lock.unlock();
+
     if (had_items)
       thread_cv_.notify_one();
 
     task();
     task = nullptr;
+
+    lock.lock();
   }
 }
 
-- 
2.43.0


From 6e3ef6ab2714491b615cf5ebdccc162f4e98c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 03/14] fix: a thread pool creates a thread for every task no
 idle thread will take

Waiting threads that were already notified for earlier tasks were counted
again as available, so a task could wait behind a long running one although
fewer than the maximum number of threads were running tasks.
---
 rst/task_runner/thread_pool_task_runner.cc | 59 ++++++++++------------
 rst/task_runner/thread_pool_task_runner.h  |  6 +++
 2 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index a93844d..a73dcc9 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -67,6 +67,8 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
     thread_cv_.notify_one();
   });
 
+  starting_threads_num_--;
+
   while (true) {
     while (tasks_.empty() && !should_exit_) {
       waiting_threads_num_++;
@@ -91,6 +93,7 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
       task = front.task;
       front.iterations--;
     }
+    queued_iterations_num_--;
 
     const auto had_items = !tasks_.empty();
 
@@ -106,6 +109,27 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   }
 }
 
+void ThreadPoolTaskRunner::DelayedTaskRunner::CreateThreads() {
+  // Waiting threads that have been notified but have not woken up yet and
+  // threads that have not started yet will take tasks pushed before.
+  const auto idle_threads_num = waiting_threads_num_ + starting_threads_num_;
+  if (queued_iterations_num_ <= idle_threads_num)
+    return;
+
+  RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
+  const auto threads_num_to_create =
+      std::min(queued_iterations_num_ - idle_threads_num,
+               max_threads_num_ - thread_id_to_thread_map_.size());
+
+  for (size_t i = 0; i < threads_num_to_create; i++) {
+    std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
+    const auto id = t.get_id();
+    const auto [_, success] = thread_id_to_thread_map_.emplace(id, std::move(t));
+    RST_DCHECK(success);
+    starting_threads_num_++;
+  }
+}
+
 void ThreadPoolTaskRunner::DelayedTaskRunner::PushTasks(
     const NotNull<std::vector<internal::IterationItem>*> tasks) {
   RST_DCHECK(!tasks->empty());
@@ -113,26 +137,12 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTasks(
   {
     std::lock_guard lock(thread_mutex_);
 
-    size_t tasks_num = 0;
     for (auto& task : *tasks) {
-      tasks_num += task.iterations + 1;
+      queued_iterations_num_ += task.iterations + 1;
       tasks_.emplace(std::move(task));
     }
 
-    RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
-    const auto max_threads_num_to_create =
-        max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
-
-    for (size_t i = 0; i < threads_num_to_create; i++) {
-      std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
-      const auto id = t.get_id();
-      const auto [_, success] =
-          thread_id_to_thread_map_.emplace(id, std::move(t));
-      RST_DCHECK(success);
-    }
+    CreateThreads();
   }
 
   thread_cv_.notify_one();
@@ -143,23 +153,10 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTask(
   {
     std::lock_guard lock(thread_mutex_);
 
-    const auto tasks_num = task.iterations + 1;
+    queued_iterations_num_ += task.iterations + 1;
     tasks_.emplace(std::move(task));
 
-    RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
-    const auto max_threads_num_to_create =
-        max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
-
-    for (size_t i = 0; i < threads_num_to_create; i++) {
-      std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
-      const auto id = t.get_id();
-      const auto [_, success] =
-          thread_id_to_thread_map_.emplace(id, std::move(t));
-      RST_DCHECK(success);
-    }
+    CreateThreads();
   }
 
   thread_cv_.notify_one();
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 87e6c03..4787f91 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -100,6 +100,8 @@ class ThreadPoolTaskRunner : public TaskRunner {
 
    private:
     void WaitAndRunTasks();
+    // Creates threads for the queued tasks that idle threads will not take.
+    void CreateThreads();
 
     std::queue<internal::IterationItem> tasks_;
 
@@ -109,7 +111,11 @@ class ThreadPoolTaskRunner : public TaskRunner {
     std::unordered_map<std::thread::id, std::thread> thread_id_to_thread_map_;
     const size_t max_threads_num_;
     const std::chrono::nanoseconds keep_alive_time_;
+    // Sum of the iterations left in |tasks_|.
+    size_t queued_iterations_num_ = 0;
     size_t waiting_threads_num_ = 0;
+    // Number of created threads that have not started to wait for tasks yet.
+    size_t starting_threads_num_ = 0;
 
     bool should_exit_ = false;
 
-- 
2.43.0


From c85405482cc7e05ab79fa0dfaf40018e8316953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 04/14] fix: running tasks can post to a pool that is being
 destroyed

A delayed task posted by a running task while the destructor waited for it
went to the already destroyed service runner.
---
 rst/task_runner/thread_pool_task_runner.cc | 14 +++++++++++---
 rst/task_runner/thread_pool_task_runner.h  |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index a73dcc9..8e5c33e 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -44,7 +44,9 @@ ThreadPoolTaskRunner::DelayedTaskRunner::DelayedTaskRunner(
   RST_DCHECK(keep_alive_time.count() > 0);
 }
 
-ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
+ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() = default;
+
+void ThreadPoolTaskRunner::DelayedTaskRunner::Stop() {
   std::unique_lock lock(thread_mutex_);
   should_exit_ = true;
   while (!thread_id_to_thread_map_.empty()) {
@@ -174,7 +176,9 @@ ThreadPoolTaskRunner::ServiceTaskRunner::ServiceTaskRunner(
 {
 }
 
-ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() {
+ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() = default;
+
+void ThreadPoolTaskRunner::ServiceTaskRunner::Stop() {
   {
     std::lock_guard lock(thread_mutex_);
     should_exit_ = true;
@@ -255,7 +259,11 @@ ThreadPoolTaskRunner::ThreadPoolTaskRunner(
     : delayed_task_runner_(max_threads_num, keep_alive_time),
       service_task_runner_(&delayed_task_runner_, std::move(time_function)) {}
 
-ThreadPoolTaskRunner::~ThreadPoolTaskRunner() = default;
+ThreadPoolTaskRunner::~ThreadPoolTaskRunner() {
+  // Running tasks may post to both runners until they have finished.
+  service_task_runner_.Stop();
+  delayed_task_runner_.Stop();
+}
 
 void ThreadPoolTaskRunner::PostDelayedTaskWithIterations(
     std::function<void()>&& task, const chrono::nanoseconds delay,
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 4787f91..7f544ce 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -97,6 +97,8 @@ class ThreadPoolTaskRunner : public TaskRunner {
 
     void PushTasks(NotNull<std::vector<internal::IterationItem>*> items);
     void PushTask(internal::IterationItem item);
+    // Waits for the running tasks and the threads to finish.
+    void Stop();
 
    private:
     void WaitAndRunTasks();
@@ -131,6 +133,8 @@ class ThreadPoolTaskRunner : public TaskRunner {
 
     void PushTask(std::function<void()>&& task, std::chrono::nanoseconds delay,
                   size_t iterations);
+    // Stops scheduling tasks. Tasks still can be pushed.
+    void Stop();
 
    private:
     void WaitAndScheduleTasks();
-- 
2.43.0


From a11c217082e1a06ba90a686e066d672671fb3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 05/14] fix: huge delays and keep-alive times do not overflow

The due time of a task with a delay near the maximum duration overflowed, so
the task ran at once, and waiting for such a duration overflowed the deadline.
---
 rst/task_runner/item.h                     | 10 ++++++++++
 rst/task_runner/polling_task_runner.cc     |  2 +-
 rst/task_runner/thread_pool_task_runner.cc | 14 +++++++++++---
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/rst/task_runner/item.h b/rst/task_runner/item.h
index 15587ed..8112816 100644
--- a/rst/task_runner/item.h
+++ b/rst/task_runner/item.h
@@ -39,6 +39,16 @@
 namespace rst {
 namespace internal {
 
+// Returns |now| + |delay| for a non-negative |delay|, or the maximum time point
+// if the sum is not representable.
+inline std::chrono::nanoseconds GetFutureTimePoint(
+    const std::chrono::nanoseconds now, const std::chrono::nanoseconds delay) {
+  constexpr auto max = std::chrono::nanoseconds::max();
+  if (now.count() > 0 && delay > max - now)
+    return max;
+  return now + delay;
+}
+
 // Used in implementations of TaskRunner interface to maintain an ordered queue
 // of tasks.
 struct Item {
diff --git a/rst/task_runner/polling_task_runner.cc b/rst/task_runner/polling_task_runner.cc
index e74c607..1450ddc 100644
--- a/rst/task_runner/polling_task_runner.cc
+++ b/rst/task_runner/polling_task_runner.cc
@@ -48,7 +48,7 @@ void PollingTaskRunner::PostDelayedTaskWithIterations(
   RST_DCHECK(delay.count() >= 0);
 
   const auto now = time_function_();
-  const auto future_time_point = now + delay;
+  const auto future_time_point = internal::GetFutureTimePoint(now, delay);
   std::lock_guard lock(mutex_);
   queue_.emplace_back(std::move(task), future_time_point, task_id_++,
                       iterations);
diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 8e5c33e..5b2bef1 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -36,10 +36,17 @@
 namespace chrono = std::chrono;
 
 namespace rst {
+namespace {
+
+// Longer waits are not representable as time points of the steady clock.
+constexpr chrono::nanoseconds kMaxWaitDuration = chrono::hours(24 * 365 * 100);
+
+}  // namespace
 
 ThreadPoolTaskRunner::DelayedTaskRunner::DelayedTaskRunner(
     const size_t max_threads_num, const chrono::nanoseconds keep_alive_time)
-    : max_threads_num_(max_threads_num), keep_alive_time_(keep_alive_time) {
+    : max_threads_num_(max_threads_num),
+      keep_alive_time_(std::min(keep_alive_time, kMaxWaitDuration)) {
   RST_DCHECK(max_threads_num > 0);
   RST_DCHECK(keep_alive_time.count() > 0);
 }
@@ -202,7 +209,8 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::WaitAndScheduleTasks() {
         const auto& item = delayed_tasks_.front();
         const auto now = time_function_();
         if (now < item.time_point) {
-          const auto wait_duration = item.time_point - now;
+          const auto wait_duration =
+              std::min(item.time_point - now, kMaxWaitDuration);
           thread_cv_.wait_for(lock, wait_duration);
         }
       } else {
@@ -241,7 +249,7 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::PushTask(
   RST_DCHECK(delay.count() > 0);
 
   const auto now = time_function_();
-  const auto future_time_point = now + delay;
+  const auto future_time_point = internal::GetFutureTimePoint(now, delay);
   {
     std::lock_guard lock(thread_mutex_);
     delayed_tasks_.emplace_back(std::move(task), future_time_point, task_id_++,
-- 
2.43.0


From d79301a9e3c5e84169bb21b3c44b36958d626813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 06/14] fix: an idle pool thread woken for nothing still
 expires on time

---
 rst/task_runner/thread_pool_task_runner.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 5b2bef1..d42dd6a 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -79,11 +79,13 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   starting_threads_num_--;
 
   while (true) {
+    // Waking up for nothing does not make the thread less idle.
+    const auto expiry_time = chrono::steady_clock::now() + keep_alive_time_;
     while (tasks_.empty() && !should_exit_) {
       waiting_threads_num_++;
       RST_DEFER([this]() { waiting_threads_num_--; });
 
-      if (thread_cv_.wait_for(lock, keep_alive_time_) ==
+      if (thread_cv_.wait_until(lock, expiry_time) ==
               std::cv_status::timeout &&
           tasks_.empty()) {
         return;
-- 
2.43.0


From 88860ab8a5a61fcca3c0bf34f7d80e297e2385e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 07/14] fix: Value refuses the smallest int64_t

std::abs() of it overflows and the assertion let it through.
---
 rst/value/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rst/value/value.h b/rst/value/value.h
index c8a219a..00e81f9 100644
--- a/rst/value/value.h
+++ b/rst/value/value.h
@@ -138,7 +138,7 @@ class Value {
   // Can store |2^53 - 1| at maximum since it's a max safe integer that can be
   // stored in JavaScript.
   explicit Value(int64_t value) : Value(static_cast<double>(value)) {
-    RST_DCHECK(std::abs(value) <= kMaxSafeInteger);
+    RST_DCHECK((value >= -kMaxSafeInteger) && (value <= kMaxSafeInteger));
   }
 
   explicit Value(double value) : type_(Type::kNumber), number_(value) {
-- 
2.43.0


From 5840cf9d2d49d2d85a3d06bab008584ccf6fac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 08/14] fix: a Value can be assigned from a value nested inside
 it

The old content, and the source with it, was released before the source was
read.
---
 rst/value/value.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 712bec5..1d41b43 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -58,11 +58,14 @@ Value::Value(Value&& other) noexcept { MoveConstruct(std::move(other)); }
 Value::~Value() { Cleanup(); }
 
 Value& Value::operator=(Value&& rhs) noexcept {
-  if (type_ == rhs.type_) {
-    MoveAssign(std::move(rhs));
+  // |rhs| may be nested inside |*this|, so takes its content before releasing
+  // the old one.
+  Value value(std::move(rhs));
+  if (type_ == value.type_) {
+    MoveAssign(std::move(value));
   } else {
     Cleanup();
-    MoveConstruct(std::move(rhs));
+    MoveConstruct(std::move(value));
   }
 
   return *this;
-- 
2.43.0


From bb4d33bf5e7ff5afcafa1734c8a1b973d354af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 09/14] fix: Value equality of numbers agrees with their order

Different numbers closer than epsilon were equal and also ordered.
---
 rst/value/value.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 1d41b43..a0626ca 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -308,8 +308,10 @@ bool operator==(const Value& lhs, const Value& rhs) {
     case Value::Type::kBool:
       return lhs.get_bool() == rhs.get_bool();
     case Value::Type::kNumber:
-      return std::fabs(lhs.get_number() - rhs.get_number()) <
-             std::numeric_limits<double>::epsilon();
+#pragma clang diagnostic push
+#pragma clang diagnostic ignored "-Wfloat-equal"
+      return lhs.get_number() == rhs.get_number();
+#pragma clang diagnostic pop
     case Value::Type::kString:
       return lhs.get_string() == rhs.get_string();
     case Value::Type::kArray:
-- 
2.43.0


From 154dc1194d0c6956c5828034fb9f05dd12d94198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 10/14] fix: a failed important-file write removes its temp
 file

Only a failed rename removed it; after a failed write or close it stayed.
---
 rst/files/file_utils.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rst/files/file_utils.cc b/rst/files/file_utils.cc
index fd32722..d561da7 100644
--- a/rst/files/file_utils.cc
+++ b/rst/files/file_utils.cc
@@ -35,7 +35,7 @@
 #include <utility>
 
 #include "rst/guid/guid.h"
-#include "rst/status/status_macros.h"
+#include "rst/rtti/rtti.h"
 #include "rst/stl/resize_uninitialized.h"
 #include "rst/strings/str_cat.h"
 
@@ -112,7 +112,13 @@ Status WriteImportantFile(const filesystem::path& filename,
                           const std::string_view data) {
   const filesystem::path temp_filename(
       StrCat({filename.native(), Guid().AsStringView().value(), ".tmp"}));
-  RST_TRY(WriteFile(temp_filename.c_str(), "wxb", data));
+  auto status = WriteFile(temp_filename.c_str(), "wxb", data);
+  if (status.err()) {
+    // The temp file is not ours if it could not be opened.
+    if (dyn_cast<FileOpenError>(status.GetError()) == nullptr)
+      (void)Remove(temp_filename);
+    return status;
+  }
 
   if (!Rename(temp_filename, filename)) {
     (void)Remove(temp_filename);
-- 
2.43.0


From f6d3ccab0d20411895e82d30b49a95f28a2fdc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 11/14] fix: file sinks write messages with embedded NUL bytes
 whole

---
 rst/logger/file_name_sink.cc |  8 +++-----
 rst/logger/file_ptr_sink.cc  | 10 ++++------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/rst/logger/file_name_sink.cc b/rst/logger/file_name_sink.cc
index 486b287..80dcd1b 100644
--- a/rst/logger/file_name_sink.cc
+++ b/rst/logger/file_name_sink.cc
@@ -27,7 +27,6 @@
 
 #include "rst/logger/file_name_sink.h"
 
-#include <limits>
 #include <utility>
 
 #include "rst/check/check.h"
@@ -55,10 +54,9 @@ StatusOr<FileNameSink::Ptr> FileNameSink::Create(
 void FileNameSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(log_file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  const auto line = StrCat({message, "\n"});
+  RST_CHECK(std::fwrite(line.data(), sizeof(char), line.size(),
+                        log_file_.get()) == line.size());
   RST_CHECK(std::fflush(log_file_.get()) == 0);
 }
 
diff --git a/rst/logger/file_ptr_sink.cc b/rst/logger/file_ptr_sink.cc
index 80c5549..35a3280 100644
--- a/rst/logger/file_ptr_sink.cc
+++ b/rst/logger/file_ptr_sink.cc
@@ -27,9 +27,8 @@
 
 #include "rst/logger/file_ptr_sink.h"
 
-#include <limits>
-
 #include "rst/check/check.h"
+#include "rst/strings/str_cat.h"
 
 namespace rst {
 
@@ -45,10 +44,9 @@ FilePtrSink::~FilePtrSink() = default;
 void FilePtrSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  const auto line = StrCat({message, "\n"});
+  RST_CHECK(std::fwrite(line.data(), sizeof(char), line.size(),
+                        file_.get()) == line.size());
   RST_CHECK(std::fflush(file_.get()) == 0);
 }
 
-- 
2.43.0


From f42312bef15067684f7521f76c779eb91183634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 12/14] fix: Format() with too many values does not write
 beyond its buffer

---
 rst/strings/format.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rst/strings/format.cc b/rst/strings/format.cc
index afc7c85..b900f5b 100644
--- a/rst/strings/format.cc
+++ b/rst/strings/format.cc
@@ -48,8 +48,8 @@ std::string FormatAndReturnString(const NotNull<const char*> not_null_format,
     RST_DCHECK(values != nullptr);
     new_size += values[i].size();
   }
-  RST_DCHECK(new_size >= size * 2);
-  new_size -= size * 2;
+  // Enough even if there are more values than placeholders, which is found out
+  // only at the end of the format string.
 
   std::string output;
   StringResizeUninitialized(&output, new_size);
-- 
2.43.0


From 55dfb933b334e1583c33bd7eba59493b21a9911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 13/14] fix: GUID validation checks the version and variant
 digits

---
 rst/guid/guid.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rst/guid/guid.cc b/rst/guid/guid.cc
index 988bcbd..7fe8dcf 100644
--- a/rst/guid/guid.cc
+++ b/rst/guid/guid.cc
@@ -68,7 +68,11 @@ bool IsValidGuidInternal(const std::string_view guid, const Strict strict) {
     }
   }
 
-  return true;
+  // The version must be 4 and the variant one of [8, 9, A, B].
+  const auto variant = guid[19];
+  return guid[14] == '4' &&
+         (variant == '8' || variant == '9' || variant == 'A' ||
+          variant == 'a' || variant == 'B' || variant == 'b');
 }
 
 }  // namespace
-- 
2.43.0


From e8397b5d6749be5ac599983812600bb503f4c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 14/14] fix: Value comparison takes time exponential in depth

Nested arrays and objects were compared twice by operator< at every level.
---
 rst/value/value.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index a0626ca..32fa28b 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -27,6 +27,8 @@
 
 #include "rst/value/value.h"
 
+#include <algorithm>
+
 #include "rst/clone/clone.h"
 
 namespace rst {
@@ -343,10 +345,28 @@ bool operator<(const Value& lhs, const Value& rhs) {
       return lhs.get_string() < rhs.get_string();
     }
     case Value::Type::kArray: {
-      return lhs.get_array() < rhs.get_array();
+      // Compares nested values only once, otherwise the time is exponential in
+      // the depth.
+      const auto& lhs_array = lhs.get_array();
+      const auto& rhs_array = rhs.get_array();
+      const auto [lhs_it, rhs_it] =
+          std::mismatch(lhs_array.cbegin(), lhs_array.cend(),
+                        rhs_array.cbegin(), rhs_array.cend());
+      if (lhs_it == lhs_array.cend() || rhs_it == rhs_array.cend())
+        return rhs_it != rhs_array.cend();
+      return *lhs_it < *rhs_it;
     }
     case Value::Type::kObject: {
-      return lhs.get_object() < rhs.get_object();
+      const auto& lhs_object = lhs.get_object();
+      const auto& rhs_object = rhs.get_object();
+      const auto [lhs_it, rhs_it] =
+          std::mismatch(lhs_object.cbegin(), lhs_object.cend(),
+                        rhs_object.cbegin(), rhs_object.cend());
+      if (lhs_it == lhs_object.cend() || rhs_it == rhs_object.cend())
+        return rhs_it != rhs_object.cend();
+      if (lhs_it->first != rhs_it->first)
+        return lhs_it->first < rhs_it->first;
+      return lhs_it->second < rhs_it->second;
     }
   }
 
-- 
2.43.0

