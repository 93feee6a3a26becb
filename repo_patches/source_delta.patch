From 4eb798bf34ca41a19b326ea1ce64c97bd8af1050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 01/42] fix: task_scheduler stop can miss its own notification
 and let tasks outlive it

The running state was the thread pool's flag, changed outside the mutex of
the condition variable the scheduler thread waits on: a stop in between the
check and the wait was lost (stop hung, or waited for the next due time), and
tasks added or handed over concurrently with a stop survived into the next
session. Use a flag guarded by that mutex, serialise start and stop, and stop
the pool only once the scheduler thread has ended.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp |  2 ++
 sdk/src/task_scheduler.cpp                  | 37 ++++++++++++++-------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index f067f12..3391343 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -425,6 +425,8 @@ public:
 
 private:
     tc::sdk::thread_pool _tp;
+    bool _is_running{false};
+    std::mutex _is_running_mtx;
     std::thread _scheduler_thread;
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1331465..599bf51 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -29,22 +29,27 @@ task_scheduler::~task_scheduler()
 
 bool task_scheduler::start(const unsigned int num_threads)
 {
+    std::scoped_lock running_lock(_is_running_mtx);
     if (!_tp.start(num_threads))
         return false;
 
+    {
+        std::scoped_lock lock(_update_tasks_mtx);
+        _is_running = true;
+    }
+
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
     _scheduler_thread = std::thread([this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
-        while (_tp.is_running())
+        std::unique_lock lock(_update_tasks_mtx);
+        while (_is_running)
         {
-            std::unique_lock lock(_update_tasks_mtx);
-
             if (_tasks.empty())
             {
-                _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                _update_tasks_cv.wait(lock, [this] { return !_is_running || !_tasks.empty(); });
             }
             else
             {
@@ -57,7 +62,7 @@ bool task_scheduler::start(const unsigned int num_threads)
                     continue;
             }
 
-            if (!_tp.is_running())
+            if (!_is_running)
                 return;
 
             update_tasks();
@@ -71,19 +76,27 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
-    if (!_tp.stop())
-        return false;
-
-    _update_tasks_cv.notify_all();
+    std::scoped_lock running_lock(_is_running_mtx);
 
     {
+        // The flag is guarded by the mutex of the condition variable, so that the scheduler thread
+        // cannot miss the notification and no task can be added or scheduled after this point.
         std::scoped_lock lock(_update_tasks_mtx);
+        if (!_is_running)
+            return false;
+
+        _is_running = false;
         _tasks.clear();
     }
 
+    _update_tasks_cv.notify_all();
+
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
+    // The scheduler thread does not hand over tasks anymore: drop the ones that have not been executed yet.
+    _tp.stop();
+
     return true;
 }
 
@@ -169,12 +182,12 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
-    if (!_tp.is_running())
-        return false;
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
+        if (!_is_running)
+            return false;
+
         if (already_exists(st.hash()))
             return false;
 
-- 
2.43.0


From 9336915504f70d4d0551461d8a5b5b01a4bd8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 02/42] fix: task_scheduler hangs forever on a non positive
 interval

The loops which advance the next start time past now never end for an interval
that is not positive, while the scheduler mutex is held.
---
 sdk/src/task_scheduler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 599bf51..c4e02d7 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -158,6 +158,10 @@ std::optional<sdk::clock::duration> task_scheduler::get_interval(const std::stri
 
 bool task_scheduler::update_interval(const std::string& task_id, interval_t interval)
 {
+    // A non positive interval never reaches the next start time.
+    if (interval <= interval_t::zero())
+        return false;
+
     std::unique_lock lock(_update_tasks_mtx);
     if (auto task_iterator = get_task_iterator(task_id); task_iterator != _tasks.end() && task_iterator->second.interval().has_value())
     {
@@ -182,6 +186,10 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
+    // A non positive interval never reaches the next start time.
+    if (st.interval().has_value() && st.interval().value() <= interval_t::zero())
+        return false;
+
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
-- 
2.43.0


From 1f79909df3dd497f4978268d2e8bc3bc5a0d91a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 03/42] fix: task_scheduler::update_interval runs a task twice
 for one instant

Called at the very instant a periodic task has just been started for, the next
start time was set to that same instant again.
---
 sdk/src/task_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index c4e02d7..c46636b 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -165,8 +165,9 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
     std::unique_lock lock(_update_tasks_mtx);
     if (auto task_iterator = get_task_iterator(task_id); task_iterator != _tasks.end() && task_iterator->second.interval().has_value())
     {
+        // The start time following the last one, which has already been used and must not be used again.
         const auto task_interval = task_iterator->second.interval().value();
-        auto task_next_start_time = task_iterator->first - task_interval;
+        auto task_next_start_time = task_iterator->first - task_interval + interval;
 
         const auto now = tc::sdk::clock::now();
         while (now > task_next_start_time)
-- 
2.43.0


From 5764a51250d7288372719e779b98842734ce58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 04/42] fix: task_scheduler::update_interval loses the initial
 delay of a task

A periodic task whose first start time was still to come has no previous start
time to count the new interval from: it was started up to a whole interval
before the requested delay.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 12 ++++++++++++
 sdk/src/task_scheduler.cpp                  | 16 ++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index 3391343..389081c 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -85,6 +85,7 @@ private:
         schedulable_task(schedulable_task&& other) noexcept
             : _task{std::move(other._task)}
             , _is_enabled{std::move(other._is_enabled)}
+            , _is_started{std::move(other._is_started)}
             , _interval{std::move(other._interval)}
             , _hash{std::move(other._hash)}
         {
@@ -109,6 +110,15 @@ private:
             return _is_enabled;
         }
 
+        void set_started()
+        {
+            _is_started = true;
+        }
+        bool is_started() const
+        {
+            return _is_started;
+        }
+
         void set_interval(tc::sdk::clock::duration interval)
         {
             _interval = interval;
@@ -126,12 +136,14 @@ private:
     private:
         std::shared_ptr<tc::sdk::task> _task;
         bool _is_enabled;
+        bool _is_started{false};
         std::optional<tc::sdk::clock::duration> _interval;
         std::optional<size_t> _hash;
 
         schedulable_task(schedulable_task* st)
             : _task{st->_task}
             , _is_enabled{st->_is_enabled}
+            , _is_started{st->_is_started}
             , _interval{st->_interval}
             , _hash{st->_hash}
         {
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index c46636b..92ba385 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -165,13 +165,16 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
     std::unique_lock lock(_update_tasks_mtx);
     if (auto task_iterator = get_task_iterator(task_id); task_iterator != _tasks.end() && task_iterator->second.interval().has_value())
     {
-        // The start time following the last one, which has already been used and must not be used again.
-        const auto task_interval = task_iterator->second.interval().value();
-        auto task_next_start_time = task_iterator->first - task_interval + interval;
+        auto task_next_start_time = task_iterator->first;
+        if (task_iterator->second.is_started())
+        {
+            // The start time following the last one, which has already been used and must not be used again.
+            task_next_start_time += interval - task_iterator->second.interval().value();
 
-        const auto now = tc::sdk::clock::now();
-        while (now > task_next_start_time)
-            task_next_start_time += interval;
+            const auto now = tc::sdk::clock::now();
+            while (now > task_next_start_time)
+                task_next_start_time += interval;
+        }
 
         task_iterator->second.set_interval(interval);
         _tasks.emplace(std::move(task_next_start_time), std::move(task_iterator->second));
@@ -235,6 +238,7 @@ void task_scheduler::update_tasks()
             while (now > task_next_start_time)
                 task_next_start_time += task_interval;
 
+            it->second.set_started();
             recursive_tasks.emplace(std::move(task_next_start_time), std::move(it->second));
         }
     }
-- 
2.43.0


From 65c0a5befecdbde7a7e37042bd799647d65861c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 05/42] fix: task_scheduler takes different ids for the same
 one

Task ids were compared by their hash only: an id whose hash collides with the
one of a scheduled task was refused, and querying, changing or removing it
affected the other task.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 27 ++++++++++-----------
 sdk/src/task_scheduler.cpp                  | 22 +++++------------
 2 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index 389081c..9443212 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -54,10 +54,10 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash)
+        explicit schedulable_task(FunctionType&& f, std::string id)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
-            , _hash{hash}
+            , _id{std::move(id)}
         {
         }
 
@@ -70,11 +70,11 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash, tc::sdk::clock::duration interval)
+        explicit schedulable_task(FunctionType&& f, std::string id, tc::sdk::clock::duration interval)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
             , _interval{interval}
-            , _hash{hash}
+            , _id{std::move(id)}
         {
         }
 
@@ -87,7 +87,7 @@ private:
             , _is_enabled{std::move(other._is_enabled)}
             , _is_started{std::move(other._is_started)}
             , _interval{std::move(other._interval)}
-            , _hash{std::move(other._hash)}
+            , _id{std::move(other._id)}
         {
         }
 
@@ -128,9 +128,9 @@ private:
             return _interval;
         }
 
-        std::optional<size_t> hash() const
+        const std::optional<std::string>& id() const
         {
-            return _hash;
+            return _id;
         }
 
     private:
@@ -138,14 +138,14 @@ private:
         bool _is_enabled;
         bool _is_started{false};
         std::optional<tc::sdk::clock::duration> _interval;
-        std::optional<size_t> _hash;
+        std::optional<std::string> _id;
 
         schedulable_task(schedulable_task* st)
             : _task{st->_task}
             , _is_enabled{st->_is_enabled}
             , _is_started{st->_is_started}
             , _interval{st->_interval}
-            , _hash{st->_hash}
+            , _id{st->_id}
         {
         }
     };
@@ -324,7 +324,7 @@ public:
         auto task_wrapper = std::packaged_task<ReturnType()>(task);
         std::future<ReturnType> future = task_wrapper.get_future();
 
-        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), _hasher(task_id))))
+        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), task_id)))
             return std::nullopt;
 
         return future;
@@ -417,7 +417,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), task_id, interval));
     }
 
     /*!
@@ -432,7 +432,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), task_id, interval));
     }
 
 private:
@@ -443,13 +443,12 @@ private:
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
     std::mutex _update_tasks_mtx;
-    std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
 
     bool add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st);
     void update_tasks();
     auto get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator;
-    bool already_exists(const std::optional<size_t>& opt_hash);
+    bool already_exists(const std::optional<std::string>& opt_id);
 };
 
 }
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 92ba385..207b07b 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -200,7 +200,7 @@ bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulabl
         if (!_is_running)
             return false;
 
-        if (already_exists(st.hash()))
+        if (already_exists(st.id()))
             return false;
 
         _tasks.emplace(std::move(timepoint), std::move(st));
@@ -252,27 +252,17 @@ void task_scheduler::update_tasks()
 
 auto task_scheduler::get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator
 {
-    return std::find_if(_tasks.begin(), _tasks.end(), [hash = _hasher(task_id)](auto&& it) {
-        if (it.second.hash().has_value())
-        {
-            return hash == it.second.hash().value();
-        }
-        return false;
+    return std::find_if(_tasks.begin(), _tasks.end(), [&task_id](auto&& it) {
+        return it.second.id() == task_id;
     });
 }
 
-bool task_scheduler::already_exists(const std::optional<size_t>& opt_hash)
+bool task_scheduler::already_exists(const std::optional<std::string>& opt_id)
 {
-    if (!opt_hash.has_value())
+    if (!opt_id.has_value())
         return false;
 
-    return std::any_of(_tasks.begin(), _tasks.end(), [hash = opt_hash.value()](auto&& it) {
-        if (it.second.hash().has_value())
-        {
-            return hash == it.second.hash().value();
-        }
-        return false;
-    });
+    return get_task_iterator(opt_id.value()) != _tasks.end();
 }
 
 }
-- 
2.43.0


From ae40e6108456080319b128d26f49d5c449cae4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 06/42] fix: event_dispatcher mixes up events with different
 names or arguments

Handlers were stored under the event name followed by the sum of the hash
codes of the argument types: argument lists in a different order, and names
that end with such a number, were taken for the same event - and the handler
called through the wrong function type. remove_event removed every event whose
name starts with the given one. Use the name and the list of types as key.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 20 ++++++++-----------
 sdk/src/event_dispatcher.cpp                  |  2 +-
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 808be76..6bdc217 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -20,10 +20,12 @@
 #include <teiacare/sdk/thread_pool.hpp>
 
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
-#include <unordered_map>
+#include <typeindex>
+#include <utility>
 #include <vector>
 
 namespace tc::sdk
@@ -177,23 +179,17 @@ public:
     auto stop() -> bool;
 
 private:
-    std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
+    // An event is identified by its name and by the ordered list of its argument types.
+    using event_handler_id_t = std::pair<std::string, std::vector<std::type_index>>;
+    std::map<event_handler_id_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
     static unsigned long handler_id;
 
     template <typename... Args>
-    constexpr auto get_event_handler_id(std::string&& event_name) const
+    auto get_event_handler_id(std::string&& event_name) const -> event_handler_id_t
     {
-        if constexpr (sizeof...(Args) == 0)
-        {
-            return std::move(event_name);
-        }
-        else
-        {
-            auto args_hash = std::to_string((typeid(std::decay_t<Args>).hash_code() + ...));
-            return std::move(event_name + args_hash);
-        }
+        return {std::move(event_name), {std::type_index(typeid(std::decay_t<Args>))...}};
     }
 };
 
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index d66f54d..04da185 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -50,7 +50,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.first == event_name; }))
         return true;
 
     return false;
-- 
2.43.0


From e5fa14de5a2377f2610a2f5154bc86b0142d4f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 07/42] fix: event_dispatcher handler ids are shared between
 all dispatchers

The id counter was static, incremented under the mutex of whichever dispatcher
(a data race between two of them) and reset by the destructor of any one, so
that another dispatcher handed out ids it had already given to its handlers.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 6 +++---
 sdk/src/event_dispatcher.cpp                  | 3 ---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 6bdc217..50e97a6 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -115,8 +115,8 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler)));
-        return handler_id;
+        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++_handler_id, std::move(event_handler)));
+        return _handler_id;
     }
 
     /*!
@@ -184,7 +184,7 @@ private:
     std::map<event_handler_id_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
-    static unsigned long handler_id;
+    unsigned long _handler_id{0};
 
     template <typename... Args>
     auto get_event_handler_id(std::string&& event_name) const -> event_handler_id_t
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index 04da185..2092717 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -16,8 +16,6 @@
 
 namespace tc::sdk
 {
-unsigned long event_dispatcher::handler_id = 0;
-
 event_dispatcher::event_dispatcher() noexcept
 {
 }
@@ -25,7 +23,6 @@ event_dispatcher::event_dispatcher() noexcept
 event_dispatcher::~event_dispatcher() noexcept
 {
     stop();
-    handler_id = 0;
 }
 
 auto event_dispatcher::remove_handler(unsigned long remove_handler_id) -> bool
-- 
2.43.0


From 9aa0804b13b750225f5d6e72b64cdf6bbe8b622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 08/42] fix: event_dispatcher delivers events emitted during
 stop after a restart

An event whose handlers were looked up before stop() dropped them, but which
was handed over to the thread pool after stop() had emptied its queue, stayed
there and invoked the dropped handlers once the dispatcher was started again.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 50e97a6..0942f85 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -136,10 +136,9 @@ public:
         if (!_handlers.contains(event_handler_id))
             return false;
 
-        std::vector<std::shared_ptr<base_handler_t>> event_handlers = _handlers.at(event_handler_id);
-        handlers_lock.unlock();
-
-        for (auto&& h : event_handlers)
+        // The lock is held until the event is handed over to the thread pool: a concurrent stop() either comes first,
+        // and there are no handlers anymore, or it discards the event.
+        for (auto&& h : _handlers.at(event_handler_id))
         {
             const std::function<void()> event = [e = std::static_pointer_cast<handler_t<Args...>>(h), args...] {
                 return std::invoke(&handler_t<Args...>::call, e.get(), args...);
-- 
2.43.0


From 5567aa11faa5d0390001c87c5b32d5181e68e816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 09/42] fix: high_precision_timer runs twice and corrupts its
 missed count if no time passed since the instant

---
 sdk/src/high_precision_timer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 0a5e517..c836a6a 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -98,15 +98,13 @@ void high_precision_timer::worker()
 
 void high_precision_timer::update_next_start_time()
 {
-    auto task_next_start_time = _next_task_timepoint;
+    auto task_next_start_time = _next_task_timepoint + _interval;
     const auto now = clock::now();
     while (now > task_next_start_time)
     {
         task_next_start_time += _interval;
         ++_missed_callback_count;
     }
-    // Adjust _missed_callback_count removing the last execution from the counter.
-    --_missed_callback_count;
     _next_task_timepoint = task_next_start_time;
 }
 
-- 
2.43.0


From eb57d16af9515c95b52d44892fd02ff305910115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 10/42] fix: high_precision_timer spins forever on a non
 positive interval

---
 sdk/include/teiacare/sdk/high_precision_timer.hpp | 2 +-
 sdk/src/high_precision_timer.cpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/high_precision_timer.hpp b/sdk/include/teiacare/sdk/high_precision_timer.hpp
index e7c5fb4..bf7611e 100644
--- a/sdk/include/teiacare/sdk/high_precision_timer.hpp
+++ b/sdk/include/teiacare/sdk/high_precision_timer.hpp
@@ -56,7 +56,7 @@ public:
      * \param interval Rate at which the user callback is triggered
      * \return true if worker has been started, false otherwise
      *
-     * If a callback has already been set this function starts the worker thread and returns true.
+     * If a callback has already been set and the interval is positive this function starts the worker thread and returns true.
      * Otherwise returns false and does nothing (the worker thread is not started).
      * Note that this function blocks the caller therad until the worker thread has been started.
      */
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index c836a6a..cab2330 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -32,7 +32,7 @@ high_precision_timer::~high_precision_timer()
 
 bool high_precision_timer::start(clock::duration&& interval)
 {
-    if (!_task)
+    if (!_task || interval <= clock::duration::zero())
         return false;
 
     stop();
-- 
2.43.0


From 0d1e0db1994fae905181696d331f2e579d452b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 11/42] fix: high_precision_timer::set_callback destroys the
 callback a running timer is using

---
 sdk/include/teiacare/sdk/high_precision_timer.hpp |  8 ++++++--
 sdk/src/high_precision_timer.cpp                  | 10 ++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/high_precision_timer.hpp b/sdk/include/teiacare/sdk/high_precision_timer.hpp
index bf7611e..9adf4a6 100644
--- a/sdk/include/teiacare/sdk/high_precision_timer.hpp
+++ b/sdk/include/teiacare/sdk/high_precision_timer.hpp
@@ -84,7 +84,9 @@ public:
             return std::apply(t, params);
         };
 
-        _task = std::make_unique<tc::sdk::task>(std::move(task_func));
+        auto new_task = std::make_shared<tc::sdk::task>(std::move(task_func));
+        std::scoped_lock lock(_task_mutex);
+        _task.swap(new_task);
     }
 
     /*!
@@ -106,11 +108,13 @@ public:
 protected:
     void worker();
     void update_next_start_time();
+    std::shared_ptr<tc::sdk::task> current_task() const;
 
 private:
     bool _is_running;
     clock::duration _interval;
-    std::unique_ptr<tc::sdk::task> _task;
+    std::shared_ptr<tc::sdk::task> _task;
+    mutable std::mutex _task_mutex;
     clock::time_point _next_task_timepoint;
     std::thread _worker_thread;
     std::condition_variable _worker_cv;
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index cab2330..f1db5c0 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -32,7 +32,7 @@ high_precision_timer::~high_precision_timer()
 
 bool high_precision_timer::start(clock::duration&& interval)
 {
-    if (!_task || interval <= clock::duration::zero())
+    if (!current_task() || interval <= clock::duration::zero())
         return false;
 
     stop();
@@ -82,6 +82,12 @@ uint64_t high_precision_timer::missed_callback_count() const
     return _missed_callback_count;
 }
 
+std::shared_ptr<tc::sdk::task> high_precision_timer::current_task() const
+{
+    std::scoped_lock lock(_task_mutex);
+    return _task;
+}
+
 void high_precision_timer::worker()
 {
     std::unique_lock lock(_worker_mutex);
@@ -90,7 +96,7 @@ void high_precision_timer::worker()
         if (_worker_cv.wait_until(lock, _next_task_timepoint, [this] { return !_is_running; }))
             break;
 
-        _task->invoke();
+        current_task()->invoke();
         ++_invoked_callback_count;
         update_next_start_time();
     }
-- 
2.43.0


From f9fe530d291916721ef18b0da1f536928a85965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 12/42] fix: service_locator returns a wrong pointer for
 services whose interface is not their first base

---
 sdk/include/teiacare/sdk/service_locator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index e0ea68a..564b4eb 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -62,7 +62,8 @@ public:
         static_assert(std::is_base_of_v<ServiceInterfaceT, ServiceT>,
                       "\nServiceT must inherit from ServiceInterfaceT");
 
-        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::make_shared<ServiceT>(std::forward<Args>(args)...));
+        std::shared_ptr<ServiceInterfaceT> service = std::make_shared<ServiceT>(std::forward<Args>(args)...);
+        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::move(service));
         return is_inserted;
     }
 
-- 
2.43.0


From 3f104c365dfa232bddab0267885b8103c307abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 13/42] fix: uuid_generator::create is not thread safe

---
 sdk/src/uuid_generator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdk/src/uuid_generator.cpp b/sdk/src/uuid_generator.cpp
index 186114e..c2a8411 100644
--- a/sdk/src/uuid_generator.cpp
+++ b/sdk/src/uuid_generator.cpp
@@ -15,11 +15,14 @@
 #include <teiacare/sdk/uuid_generator.hpp>
 
 #include <limits>
+#include <mutex>
 #include <random>
 #include <stdexcept>
 
 namespace tc::sdk
 {
+static std::mutex generator_mutex;
+
 uuid_generator& uuid_generator::instance()
 {
     static uuid_generator instance;
@@ -30,8 +33,11 @@ uuid_generator& uuid_generator::instance()
 {
     alignas(uint32_t) std::array<uint8_t, 16> bytes;
 
-    for (int i = 0; i < 16; i += 4)
-        *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(_generator);
+    {
+        std::scoped_lock lock(generator_mutex);
+        for (int i = 0; i < 16; i += 4)
+            *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(_generator);
+    }
 
     // variant must be 10xxxxxx
     bytes[8] &= 0xBF;
-- 
2.43.0


From d18bb0d8585a2d3d511415d88a6d929324f6affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 14/42] fix: wait_for_quit can miss a quit and sleep forever

---
 sdk/src/signal_handler.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sdk/src/signal_handler.cpp b/sdk/src/signal_handler.cpp
index a43e896..8497bfc 100644
--- a/sdk/src/signal_handler.cpp
+++ b/sdk/src/signal_handler.cpp
@@ -14,13 +14,13 @@
 
 #include <teiacare/sdk/signal_handler.hpp>
 
+#include <atomic>
 #include <csignal>
-#include <semaphore>
 
 namespace tc::sdk
 {
 static std::function<void(const char*, int)> signal_callback;
-static std::binary_semaphore sync(0);
+static std::atomic<int> pending_quits(0);
 
 void quit(const char* message, int signal)
 {
@@ -29,7 +29,8 @@ void quit(const char* message, int signal)
         signal_callback(message, signal);
     }
 
-    sync.release();
+    pending_quits.fetch_add(1);
+    pending_quits.notify_one();
 
     // static std::once_flag signal_flag;
     // std::call_once(signal_flag, quit, message, signal);
@@ -37,7 +38,15 @@ void quit(const char* message, int signal)
 
 void wait_for_quit()
 {
-    sync.acquire();
+    int pending = pending_quits.load();
+    while (pending == 0 || !pending_quits.compare_exchange_weak(pending, pending - 1))
+    {
+        if (pending == 0)
+        {
+            pending_quits.wait(0);
+            pending = pending_quits.load();
+        }
+    }
 }
 
 void signal_handler(int signal)
-- 
2.43.0


From b24e1be3aea3e64bec15378248a01475ee12e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 15/42] fix: copies of the uuid_generator create the same uuids
 again

---
 sdk/include/teiacare/sdk/uuid_generator.hpp | 3 ++-
 sdk/src/uuid_generator.cpp                  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/uuid_generator.hpp b/sdk/include/teiacare/sdk/uuid_generator.hpp
index 9354af1..0d3c9a2 100644
--- a/sdk/include/teiacare/sdk/uuid_generator.hpp
+++ b/sdk/include/teiacare/sdk/uuid_generator.hpp
@@ -16,6 +16,7 @@
 
 #include <teiacare/sdk/uuid.hpp>
 
+#include <memory>
 #include <random>
 
 namespace tc::sdk
@@ -60,7 +61,7 @@ private:
     [[nodiscard]] inline bool is_hex(const char c) const noexcept;
     [[nodiscard]] inline uint8_t hex_to_uint8(const char c) const noexcept;
 
-    std::mt19937 _generator;
+    std::shared_ptr<std::mt19937> _generator;
     std::uniform_int_distribution<uint32_t> _distribution;
 };
 
diff --git a/sdk/src/uuid_generator.cpp b/sdk/src/uuid_generator.cpp
index c2a8411..68cd7d3 100644
--- a/sdk/src/uuid_generator.cpp
+++ b/sdk/src/uuid_generator.cpp
@@ -36,7 +36,7 @@ uuid_generator& uuid_generator::instance()
     {
         std::scoped_lock lock(generator_mutex);
         for (int i = 0; i < 16; i += 4)
-            *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(_generator);
+            *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(*_generator);
     }
 
     // variant must be 10xxxxxx
@@ -147,7 +147,7 @@ uuid_generator& uuid_generator::instance()
 }
 
 uuid_generator::uuid_generator() noexcept
-    : _generator(std::mt19937(std::random_device()()))
+    : _generator(std::make_shared<std::mt19937>(std::random_device()()))
     , _distribution(std::numeric_limits<uint32_t>::min(), std::numeric_limits<uint32_t>::max())
 {
 }
-- 
2.43.0


From 739932621c1422bf015af88f62763584706d2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 16/42] fix: argument_parser takes "-" and "--" for any option
 without a short name

---
 sdk/src/argparse/argument_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 1217e3b..c7fc6a3 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -245,7 +245,7 @@ void argument_parser::print_arguments() const
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
 {
     auto it = std::find_if(args.begin(), args.end(), [&](const std::unique_ptr<tc::sdk::argument_base>& arg) {
-        return name == arg->get_name_short() || name == arg->get_name_long();
+        return !name.empty() && (name == arg->get_name_short() || name == arg->get_name_long());
     });
 
     return it == args.end() ? nullptr : it->get();
-- 
2.43.0


From 3b3fc739c5aa8d55928306eb3aa64586e10e894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 17/42] fix: argument_parser takes the next argument as the
 value of "--option="

---
 sdk/src/argparse/argument_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index c7fc6a3..ed1da22 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -94,7 +94,7 @@ parse_result argument_parser::parse(std::vector<std::string>&& args) const
 
             if (auto opt = find_argument(key, _optionals); opt != nullptr)
             {
-                if (!value.empty())
+                if (arg.find('=') != std::string::npos)
                 {
                     opt->parse(value);
                 }
-- 
2.43.0


From 31d76d343a1661f8df6518e6b017ed19f024b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 18/42] fix: a malformed environment variable terminates the
 program instead of failing the parsing

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 75b0c8d..c597469 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -84,7 +84,7 @@ public:
      * This function checks if the specified environment variable exists and,
      * if so, parses its value using the parse method.
      */
-    void parse_from_env() noexcept
+    void parse_from_env()
     {
         if (_env.empty())
             return;
-- 
2.43.0


From 3e46543998db2f63a72a8842ad30b0758fab8bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 19/42] fix: variables of flags that are not given are never
 initialized

---
 sdk/include/teiacare/sdk/argparse/flag_argument.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/include/teiacare/sdk/argparse/flag_argument.hpp b/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
index c8eb3ab..9072da2 100644
--- a/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
+++ b/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
@@ -38,6 +38,7 @@ public:
         : argument_base(name_long, std::string(1, name_short), description, false, env_var)
         , _var{var}
     {
+        _var = false;
     }
 
     /*!
@@ -51,6 +52,7 @@ public:
         : argument_base(name_long, std::string(), description, false, env_var)
         , _var{var}
     {
+        _var = false;
     }
 
     /*!
-- 
2.43.0


From 1fc34a57239540bccd52f607784596df99e406b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 20/42] fix: char arguments reject every value

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index c597469..59f1920 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -270,7 +270,7 @@ protected:
         T value;
         std::istringstream iss(str);
 
-        if (!(iss >> value) || !(iss.eof()))
+        if (!(iss >> value) || iss.peek() != std::istringstream::traits_type::eof())
         {
             throw std::runtime_error("Conversion error: " + _name_long + "=" + str);
         }
-- 
2.43.0


From 74a1f071c8e53720e7073fef2b5c6d97cdebc36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 21/42] fix: negative values of unsigned arguments wrap around

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 59f1920..551b45a 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -274,6 +274,16 @@ protected:
         {
             throw std::runtime_error("Conversion error: " + _name_long + "=" + str);
         }
+
+        // Streams wrap negative values around when they are read into unsigned integers.
+        if constexpr (std::is_unsigned_v<T> && sizeof(T) > 1)
+        {
+            if (value != 0 && str.find('-') != std::string::npos)
+            {
+                throw std::runtime_error("Conversion error: " + _name_long + "=" + str);
+            }
+        }
+
         return value;
     }
 
-- 
2.43.0


From a7b9045f519f720d724ba1ac11214f1c84267f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 22/42] fix: rectangle::translated does not compile

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 8ae8696..2a7b3c0 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -352,7 +352,7 @@ public:
      */
     tc::sdk::rectangle<T> translated(T delta_x, T delta_y) const noexcept
     {
-        const auto translated_position = tc::sdk::point<T>(_position);
+        auto translated_position = tc::sdk::point<T>(_position);
         translated_position.add_delta(delta_x, delta_y);
         return tc::sdk::rectangle<T>(translated_position, _width, _height);
     }
-- 
2.43.0


From 7eaa85019be8b43f759e05c5618f4815c2137dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 23/42] fix: rectangle::contains is not strict on the right and
 bottom edges

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 2a7b3c0..5886111 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -254,8 +254,8 @@ public:
     {
         return _position.x() < other._position.x() &&
                _position.y() < other._position.y() &&
-               _position.x() + _width >= other._position.x() + other._width &&
-               _position.y() + _height >= other._position.y() + other._height;
+               _position.x() + _width > other._position.x() + other._width &&
+               _position.y() + _height > other._position.y() + other._height;
     }
 
     /*!
-- 
2.43.0


From feb3ba01936bca3c4fb17371e09e4603dd6f2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 24/42] fix: distances between points with integral coordinates
 overflow

---
 sdk/include/teiacare/sdk/geometry/point.hpp | 584 ++++++++++----------
 1 file changed, 293 insertions(+), 291 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/point.hpp b/sdk/include/teiacare/sdk/geometry/point.hpp
index 39b1d01..d5dd15d 100644
--- a/sdk/include/teiacare/sdk/geometry/point.hpp
+++ b/sdk/include/teiacare/sdk/geometry/point.hpp
@@ -1,291 +1,293 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#pragma once
-
-#include <cmath>
-#include <string>
-
-namespace tc::sdk
-{
-/*!
- * \class point
- * \brief 2D point specified by a pair of (x,y) coordinates.
- * \tparam T Coordinates type
- *
- */
-template <typename T>
-class point
-{
-public:
-    /*!
-     * \brief Default Constructor. Creates a default tc::sdk::point instance.
-     */
-    constexpr point() = default;
-
-    /*!
-     * \brief Copy Constructor. Copy a tc::sdk::point instance into another one.
-     */
-    constexpr point(const point&) = default;
-
-    /*!
-     * \brief Move Constructor. Copy a tc::sdk::point instance into another one.
-     */
-    constexpr point(point&&) = default;
-
-    /*!
-     * \brief Constructor. Creates tc::sdk::point instance with given X and Y coordinates.
-     * \param x the X coordinate of the point
-     * \param y the Y coordinate of the point
-     */
-    constexpr explicit point(T x, T y) noexcept
-        : _x{x}
-        , _y{y}
-    {
-    }
-
-    /*!
-     * \brief Assignment operator. Assign a tc::sdk::point instance to another one.
-     */
-    point& operator=(const point&) = default;
-
-    /*!
-     * \brief Move assignment operator. Assign a tc::sdk::point instance to another one.
-     */
-    point& operator=(point&&) = default;
-
-    /*!
-     * \brief Equality operator.
-     * \param other the point to compare against.
-     * \return true if the two points have the same coordinates.
-     */
-    constexpr inline bool operator==(const point& other) const noexcept
-    {
-        return _x == other._x && _y == other._y;
-    }
-
-    /*!
-     * \brief Inequality operator.
-     * \param other the point to compare against.
-     * \return true if the two points have the different coordinates.
-     */
-    constexpr inline bool operator!=(const point& other) const noexcept
-    {
-        return !operator==(other);
-    }
-
-    /*!
-     * \brief Check if the point is the origin.
-     * \return true if the point has coordinates (0,0)
-     */
-    constexpr bool is_origin() const noexcept
-    {
-        return *this == point();
-    }
-
-    /*!
-     * \brief X coordinate getter.
-     * \return X coordinate of the point.
-     */
-    constexpr inline T x() const noexcept
-    {
-        return _x;
-    }
-
-    /*!
-     * \brief Y coordinate getter.
-     * \return Y coordinate of the point.
-     */
-    constexpr inline T y() const noexcept
-    {
-        return _y;
-    }
-
-    /*!
-     * \brief X coordinate setter. Set the X coordinate of the point.
-     */
-    inline void set_x(T x) noexcept
-    {
-        _x = x;
-    }
-
-    /*!
-     * \brief Y coordinate setter. Set the Y coordinate of the point.
-     */
-    inline void set_y(T y) noexcept
-    {
-        _y = y;
-    }
-
-    /*!
-     * \brief Increments point's coordinate of delta_x and delta_y values.
-     * \param delta_x Value to be added to the current X coordinate.
-     * \param delta_y Value to be added to the current Y coordinate.
-     */
-    void add_delta(T delta_x, T delta_y) noexcept
-    {
-        _x += delta_x;
-        _y += delta_y;
-    }
-
-    /*!
-     * \brief Decrements point's coordinate of delta_x and delta_y values.
-     * \param delta_x Value to be added to the current X coordinate.
-     * \param delta_y Value to be added to the current Y coordinate.
-     */
-    void sub_delta(T delta_x, T delta_y) noexcept
-    {
-        _x -= delta_x;
-        _y -= delta_y;
-    }
-
-    /*!
-     * \brief Distance between the current point and the origin.
-     * \return The resulting distance.
-     */
-    constexpr T distance_from_origin() const noexcept
-    {
-        return static_cast<T>(std::sqrt(_x * _x + _y * _y));
-    }
-
-    /*!
-     * \brief Distance between the current point and another one.
-     * \param other The point to compute the distance from.
-     * \return The resulting distance.
-     */
-    constexpr T distance(point other) const noexcept
-    {
-        T dx = other._x - _x;
-        T dy = other._y - _y;
-        return static_cast<T>(std::sqrt(dx * dx + dy * dy));
-    }
-
-    /*!
-     * \brief Add two points.
-     * \param other The point to be added to the current one.
-     * \return The resulting point.
-     */
-    constexpr point operator+(point other) const noexcept
-    {
-        return point{_x + other._x, _y + other._y};
-    }
-
-    /*!
-     * \brief Add another point's coordinate to the current one.
-     * \param other The point to be added to the current one.
-     * \return The current point instance after the addition of the other.
-     */
-    point& operator+=(point other) noexcept
-    {
-        _x += other._x;
-        _y += other._y;
-        return *this;
-    }
-
-    /*!
-     * \brief Subtract two points.
-     * \param other The point to be subtracted to the current one.
-     * \return The resulting point.
-     */
-    constexpr point operator-(point other) const noexcept
-    {
-        return point{_x - other._x, _y - other._y};
-    }
-
-    /*!
-     * \brief Subtract another point's coordinate to the current one.
-     * \param other The point to be subtracted to the current one.
-     * \return The current point instance after the subtraction of the other.
-     */
-    point& operator-=(point other) noexcept
-    {
-        _x -= other._x;
-        _y -= other._y;
-        return *this;
-    }
-
-    /*!
-     * \brief Multiply current point's coordinate by a scalar value.
-     * \param scalar The scalar value to multiply the current point with.
-     * \return The current point instance after the scalar multiplication with the scalar value.
-     */
-    template <typename ScalarT>
-    point& operator*=(ScalarT scalar) noexcept
-    {
-        _x = static_cast<T>(_x * scalar);
-        _y = static_cast<T>(_y * scalar);
-        return *this;
-    }
-
-    /*!
-     * \brief Multiply a point by a given scalar value.
-     * \param scalar The scalar value to multiply the resulting point with.
-     * \return The resulting point.
-     */
-    template <typename ScalarT>
-    constexpr point operator*(ScalarT scalar) const noexcept
-    {
-        return point{static_cast<T>(_x * scalar), static_cast<T>(_y * scalar)};
-    }
-
-    /*!
-     * \brief Divide current point's coordinate by a scalar value.
-     * \param scalar The scalar value to multiply the current point with.
-     * \return The current point instance after the scalar multiplication with the scalar value.
-     */
-    template <typename ScalarT>
-    point& operator/=(ScalarT scalar)
-    {
-        _x = static_cast<T>(_x / scalar);
-        _y = static_cast<T>(_y / scalar);
-        return *this;
-    }
-
-    /*!
-     * \brief Divide a point by a given scalar value.
-     * \param scalar The scalar value to divide the resulting point with.
-     * \return The resulting point.
-     */
-    template <typename ScalarT>
-    constexpr point operator/(ScalarT scalar) const
-    {
-        return point{static_cast<T>(_x / scalar), static_cast<T>(_y / scalar)};
-    }
-
-    /*!
-     * \brief Get the point string representation
-     * \return String representation of the current point.
-     */
-    constexpr std::string to_string() const
-    {
-        return std::string("(" + std::to_string(_x) + ", " + std::to_string(_y) + ")");
-    }
-
-    /*!
-     * \brief Output stream operator.
-     * \param stream the output stream to write into.
-     * \param p the point object to stream.
-     * \return reference to the output stream operator, with the point string representation written into it.
-     */
-    friend std::ostream& operator<<(std::ostream& stream, const point& p)
-    {
-        return stream << p.to_string();
-    }
-
-private:
-    T _x{};
-    T _y{};
-};
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#pragma once
+
+#include <cmath>
+#include <string>
+
+namespace tc::sdk
+{
+/*!
+ * \class point
+ * \brief 2D point specified by a pair of (x,y) coordinates.
+ * \tparam T Coordinates type
+ *
+ */
+template <typename T>
+class point
+{
+public:
+    /*!
+     * \brief Default Constructor. Creates a default tc::sdk::point instance.
+     */
+    constexpr point() = default;
+
+    /*!
+     * \brief Copy Constructor. Copy a tc::sdk::point instance into another one.
+     */
+    constexpr point(const point&) = default;
+
+    /*!
+     * \brief Move Constructor. Copy a tc::sdk::point instance into another one.
+     */
+    constexpr point(point&&) = default;
+
+    /*!
+     * \brief Constructor. Creates tc::sdk::point instance with given X and Y coordinates.
+     * \param x the X coordinate of the point
+     * \param y the Y coordinate of the point
+     */
+    constexpr explicit point(T x, T y) noexcept
+        : _x{x}
+        , _y{y}
+    {
+    }
+
+    /*!
+     * \brief Assignment operator. Assign a tc::sdk::point instance to another one.
+     */
+    point& operator=(const point&) = default;
+
+    /*!
+     * \brief Move assignment operator. Assign a tc::sdk::point instance to another one.
+     */
+    point& operator=(point&&) = default;
+
+    /*!
+     * \brief Equality operator.
+     * \param other the point to compare against.
+     * \return true if the two points have the same coordinates.
+     */
+    constexpr inline bool operator==(const point& other) const noexcept
+    {
+        return _x == other._x && _y == other._y;
+    }
+
+    /*!
+     * \brief Inequality operator.
+     * \param other the point to compare against.
+     * \return true if the two points have the different coordinates.
+     */
+    constexpr inline bool operator!=(const point& other) const noexcept
+    {
+        return !operator==(other);
+    }
+
+    /*!
+     * \brief Check if the point is the origin.
+     * \return true if the point has coordinates (0,0)
+     */
+    constexpr bool is_origin() const noexcept
+    {
+        return *this == point();
+    }
+
+    /*!
+     * \brief X coordinate getter.
+     * \return X coordinate of the point.
+     */
+    constexpr inline T x() const noexcept
+    {
+        return _x;
+    }
+
+    /*!
+     * \brief Y coordinate getter.
+     * \return Y coordinate of the point.
+     */
+    constexpr inline T y() const noexcept
+    {
+        return _y;
+    }
+
+    /*!
+     * \brief X coordinate setter. Set the X coordinate of the point.
+     */
+    inline void set_x(T x) noexcept
+    {
+        _x = x;
+    }
+
+    /*!
+     * \brief Y coordinate setter. Set the Y coordinate of the point.
+     */
+    inline void set_y(T y) noexcept
+    {
+        _y = y;
+    }
+
+    /*!
+     * \brief Increments point's coordinate of delta_x and delta_y values.
+     * \param delta_x Value to be added to the current X coordinate.
+     * \param delta_y Value to be added to the current Y coordinate.
+     */
+    void add_delta(T delta_x, T delta_y) noexcept
+    {
+        _x += delta_x;
+        _y += delta_y;
+    }
+
+    /*!
+     * \brief Decrements point's coordinate of delta_x and delta_y values.
+     * \param delta_x Value to be added to the current X coordinate.
+     * \param delta_y Value to be added to the current Y coordinate.
+     */
+    void sub_delta(T delta_x, T delta_y) noexcept
+    {
+        _x -= delta_x;
+        _y -= delta_y;
+    }
+
+    /*!
+     * \brief Distance between the current point and the origin.
+     * \return The resulting distance.
+     */
+    constexpr T distance_from_origin() const noexcept
+    {
+        const double x = static_cast<double>(_x);
+        const double y = static_cast<double>(_y);
+        return static_cast<T>(std::sqrt(x * x + y * y));
+    }
+
+    /*!
+     * \brief Distance between the current point and another one.
+     * \param other The point to compute the distance from.
+     * \return The resulting distance.
+     */
+    constexpr T distance(point other) const noexcept
+    {
+        const double dx = static_cast<double>(other._x) - static_cast<double>(_x);
+        const double dy = static_cast<double>(other._y) - static_cast<double>(_y);
+        return static_cast<T>(std::sqrt(dx * dx + dy * dy));
+    }
+
+    /*!
+     * \brief Add two points.
+     * \param other The point to be added to the current one.
+     * \return The resulting point.
+     */
+    constexpr point operator+(point other) const noexcept
+    {
+        return point{_x + other._x, _y + other._y};
+    }
+
+    /*!
+     * \brief Add another point's coordinate to the current one.
+     * \param other The point to be added to the current one.
+     * \return The current point instance after the addition of the other.
+     */
+    point& operator+=(point other) noexcept
+    {
+        _x += other._x;
+        _y += other._y;
+        return *this;
+    }
+
+    /*!
+     * \brief Subtract two points.
+     * \param other The point to be subtracted to the current one.
+     * \return The resulting point.
+     */
+    constexpr point operator-(point other) const noexcept
+    {
+        return point{_x - other._x, _y - other._y};
+    }
+
+    /*!
+     * \brief Subtract another point's coordinate to the current one.
+     * \param other The point to be subtracted to the current one.
+     * \return The current point instance after the subtraction of the other.
+     */
+    point& operator-=(point other) noexcept
+    {
+        _x -= other._x;
+        _y -= other._y;
+        return *this;
+    }
+
+    /*!
+     * \brief Multiply current point's coordinate by a scalar value.
+     * \param scalar The scalar value to multiply the current point with.
+     * \return The current point instance after the scalar multiplication with the scalar value.
+     */
+    template <typename ScalarT>
+    point& operator*=(ScalarT scalar) noexcept
+    {
+        _x = static_cast<T>(_x * scalar);
+        _y = static_cast<T>(_y * scalar);
+        return *this;
+    }
+
+    /*!
+     * \brief Multiply a point by a given scalar value.
+     * \param scalar The scalar value to multiply the resulting point with.
+     * \return The resulting point.
+     */
+    template <typename ScalarT>
+    constexpr point operator*(ScalarT scalar) const noexcept
+    {
+        return point{static_cast<T>(_x * scalar), static_cast<T>(_y * scalar)};
+    }
+
+    /*!
+     * \brief Divide current point's coordinate by a scalar value.
+     * \param scalar The scalar value to multiply the current point with.
+     * \return The current point instance after the scalar multiplication with the scalar value.
+     */
+    template <typename ScalarT>
+    point& operator/=(ScalarT scalar)
+    {
+        _x = static_cast<T>(_x / scalar);
+        _y = static_cast<T>(_y / scalar);
+        return *this;
+    }
+
+    /*!
+     * \brief Divide a point by a given scalar value.
+     * \param scalar The scalar value to divide the resulting point with.
+     * \return The resulting point.
+     */
+    template <typename ScalarT>
+    constexpr point operator/(ScalarT scalar) const
+    {
+        return point{static_cast<T>(_x / scalar), static_cast<T>(_y / scalar)};
+    }
+
+    /*!
+     * \brief Get the point string representation
+     * \return String representation of the current point.
+     */
+    constexpr std::string to_string() const
+    {
+        return std::string("(" + std::to_string(_x) + ", " + std::to_string(_y) + ")");
+    }
+
+    /*!
+     * \brief Output stream operator.
+     * \param stream the output stream to write into.
+     * \param p the point object to stream.
+     * \return reference to the output stream operator, with the point string representation written into it.
+     */
+    friend std::ostream& operator<<(std::ostream& stream, const point& p)
+    {
+        return stream << p.to_string();
+    }
+
+private:
+    T _x{};
+    T _y{};
+};
+
+}
-- 
2.43.0


From 96b5b29c7e310c0c3d6c0a74bfed0d168ed3e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 25/42] fix: datetime::to_string rounds instants before 1970 up

---
 sdk/src/datetime/datetime.cpp | 132 +++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 66 deletions(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index ccaf9e0..1e2df92 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -1,66 +1,66 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#include <teiacare/sdk/datetime/datetime.hpp>
-
-#include "date.h"
-
-namespace tc::sdk
-{
-std::ostream& operator<<(std::ostream& stream, const datetime& dt)
-{
-    return stream << dt.to_string();
-}
-
-template <class DurationT>
-std::string datetime::to_string(const std::string& format) const noexcept(false)
-{
-    return ::date::format(format, std::chrono::time_point_cast<DurationT>(_tp));
-}
-
-template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::milliseconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::microseconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::nanoseconds>(const std::string& format) const noexcept(false);
-
-template <class DurationT>
-tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
-{
-    std::chrono::sys_time<DurationT> parsed_time;
-    std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_time);
-    if (ss.fail())
-        throw std::runtime_error("Failed to parse " + str);
-
-    return tc::sdk::datetime(parsed_time);
-}
-
-template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::milliseconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::microseconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::nanoseconds>(const std::string& str, const std::string& format) noexcept(false);
-
-template <class DurationT>
-tc::sdk::datetime datetime::utc_now() noexcept
-{
-    const auto now = std::chrono::system_clock::now();
-    return tc::sdk::datetime{std::chrono::time_point_cast<DurationT>(now)};
-}
-
-template tc::sdk::datetime datetime::utc_now<std::chrono::seconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::milliseconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::microseconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::nanoseconds>() noexcept;
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#include <teiacare/sdk/datetime/datetime.hpp>
+
+#include "date.h"
+
+namespace tc::sdk
+{
+std::ostream& operator<<(std::ostream& stream, const datetime& dt)
+{
+    return stream << dt.to_string();
+}
+
+template <class DurationT>
+std::string datetime::to_string(const std::string& format) const noexcept(false)
+{
+    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
+}
+
+template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::milliseconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::microseconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::nanoseconds>(const std::string& format) const noexcept(false);
+
+template <class DurationT>
+tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
+{
+    std::chrono::sys_time<DurationT> parsed_time;
+    std::stringstream ss{str};
+    ss >> ::date::parse(format, parsed_time);
+    if (ss.fail())
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::datetime(parsed_time);
+}
+
+template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::milliseconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::microseconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::nanoseconds>(const std::string& str, const std::string& format) noexcept(false);
+
+template <class DurationT>
+tc::sdk::datetime datetime::utc_now() noexcept
+{
+    const auto now = std::chrono::system_clock::now();
+    return tc::sdk::datetime{std::chrono::time_point_cast<DurationT>(now)};
+}
+
+template tc::sdk::datetime datetime::utc_now<std::chrono::seconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::milliseconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::microseconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::nanoseconds>() noexcept;
+
+}
-- 
2.43.0


From ba257fcf53cefe061928d39d4ed268d37ab70fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 26/42] fix: date::from_string overflows for years before 1678
 and after 2261

---
 sdk/src/datetime/date.cpp | 97 +++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 49 deletions(-)

diff --git a/sdk/src/datetime/date.cpp b/sdk/src/datetime/date.cpp
index 83eb8d0..7680763 100644
--- a/sdk/src/datetime/date.cpp
+++ b/sdk/src/datetime/date.cpp
@@ -1,49 +1,48 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#include "date.h"
-
-#include <teiacare/sdk/datetime/date.hpp>
-
-namespace tc::sdk
-{
-std::ostream& operator<<(std::ostream& stream, const tc::sdk::date& d)
-{
-    return stream << d.to_string();
-}
-
-std::string date::to_string(const std::string& format) const noexcept(false)
-{
-    return ::date::format(format, std::chrono::sys_days(_ymd));
-}
-
-tc::sdk::date date::from_string(const std::string& str, const std::string& format) noexcept(false)
-{
-    std::chrono::sys_days parsed_date;
-    std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_date);
-    if (ss.fail())
-        throw std::runtime_error("Failed to parse " + str);
-
-    const std::chrono::system_clock::time_point tp = parsed_date;
-    return tc::sdk::date(tp);
-}
-
-tc::sdk::date date::today() noexcept
-{
-    const std::chrono::system_clock::time_point now = std::chrono::floor<std::chrono::days>(std::chrono::system_clock::now());
-    return tc::sdk::date{now};
-}
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#include "date.h"
+
+#include <teiacare/sdk/datetime/date.hpp>
+
+namespace tc::sdk
+{
+std::ostream& operator<<(std::ostream& stream, const tc::sdk::date& d)
+{
+    return stream << d.to_string();
+}
+
+std::string date::to_string(const std::string& format) const noexcept(false)
+{
+    return ::date::format(format, std::chrono::sys_days(_ymd));
+}
+
+tc::sdk::date date::from_string(const std::string& str, const std::string& format) noexcept(false)
+{
+    std::chrono::sys_days parsed_date;
+    std::stringstream ss{str};
+    ss >> ::date::parse(format, parsed_date);
+    if (ss.fail())
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::date(std::chrono::year_month_day{parsed_date});
+}
+
+tc::sdk::date date::today() noexcept
+{
+    const std::chrono::system_clock::time_point now = std::chrono::floor<std::chrono::days>(std::chrono::system_clock::now());
+    return tc::sdk::date{now};
+}
+
+}
-- 
2.43.0


From 48341a610a9c5989accc0aab58edffe8350f7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 27/42] fix: adding a timedelta to a date overflows for years
 before 1678 and after 2261

---
 sdk/include/teiacare/sdk/datetime/date.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/datetime/date.hpp b/sdk/include/teiacare/sdk/datetime/date.hpp
index e7ddd81..5532510 100644
--- a/sdk/include/teiacare/sdk/datetime/date.hpp
+++ b/sdk/include/teiacare/sdk/datetime/date.hpp
@@ -197,7 +197,7 @@ public:
      */
     constexpr tc::sdk::date operator+(const timedelta& delta) const noexcept
     {
-        return tc::sdk::date{std::chrono::sys_days(_ymd) + delta.total_nanoseconds()};
+        return tc::sdk::date{std::chrono::year_month_day{std::chrono::sys_days(_ymd) + std::chrono::floor<std::chrono::days>(delta.total_nanoseconds())}};
     }
 
     /*!
@@ -207,7 +207,7 @@ public:
      */
     constexpr tc::sdk::date operator-(const timedelta& delta) const noexcept
     {
-        return tc::sdk::date{std::chrono::sys_days(_ymd) - delta.total_nanoseconds()};
+        return tc::sdk::date{std::chrono::year_month_day{std::chrono::sys_days(_ymd) - std::chrono::ceil<std::chrono::days>(delta.total_nanoseconds())}};
     }
 
     /*!
-- 
2.43.0


From ebb9801ecc33c26a10a5be3bf302658b4d967a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 28/42] fix: the intersection of disjoint rectangles with
 unsigned coordinates is not empty

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 5886111..fe09a20 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -299,14 +299,17 @@ public:
         auto intersection_x = tc::sdk::max(_position.x(), other._position.x());
         auto intersection_y = tc::sdk::max(_position.y(), other._position.y());
 
-        auto intersection_width = tc::sdk::min(_position.x() + _width, other._position.x() + other._width) - intersection_x;
-        if (intersection_width < T())
+        auto intersection_right = tc::sdk::min(_position.x() + _width, other._position.x() + other._width);
+        if (intersection_right < intersection_x)
             return tc::sdk::rectangle<T>{};
 
-        auto intersection_height = tc::sdk::min(_position.y() + _height, other._position.y() + other._height) - intersection_y;
-        if (intersection_height < T())
+        auto intersection_bottom = tc::sdk::min(_position.y() + _height, other._position.y() + other._height);
+        if (intersection_bottom < intersection_y)
             return tc::sdk::rectangle<T>{};
 
+        auto intersection_width = intersection_right - intersection_x;
+        auto intersection_height = intersection_bottom - intersection_y;
+
         tc::sdk::point<T> intersection_position(intersection_x, intersection_y);
         return tc::sdk::rectangle<T>(intersection_position, intersection_width, intersection_height);
     }
-- 
2.43.0


From 78688a2f59695ca7e0880e795647c7b5cf1cad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 29/42] fix: %p is ignored when reading times and datetimes, so
 that 11 PM is read as 11 AM

---
 sdk/src/datetime/date.h | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index a222017..1fd0c89 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -4797,6 +4797,13 @@ ampm_names()
     return std::make_pair(nm, nm + sizeof(nm) / sizeof(nm[0]));
 }
 
+} // namespace detail
+
+#endif // ONLY_C_LOCALE
+
+namespace detail
+{
+
 template <class CharT, class Traits, class FwdIter>
 FwdIter
 scan_keyword(std::basic_istream<CharT, Traits>& is, FwdIter kb, FwdIter ke)
@@ -4903,8 +4910,6 @@ scan_keyword(std::basic_istream<CharT, Traits>& is, FwdIter kb, FwdIter ke)
 
 } // namespace detail
 
-#endif // ONLY_C_LOCALE
-
 template <class CharT, class Traits, class Duration>
 std::basic_ostream<CharT, Traits>&
 to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
@@ -7017,17 +7022,18 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     {
                         int tp = not_a_ampm;
 #if !ONLY_C_LOCALE
-                        tm = std::tm{};
-                        tm.tm_hour = 1;
-                        ios::iostate err = ios::goodbit;
-                        f.get(is, nullptr, is, err, &tm, command, fmt + 1);
-                        is.setstate(err);
-                        if (tm.tm_hour == 1)
-                            tp = 0;
-                        else if (tm.tm_hour == 13)
-                            tp = 1;
-                        else
-                            is.setstate(err);
+                        // time_get may ignore %p without a preceding %I, so look for the names of the locale
+                        std::basic_string<CharT> nm[2];
+                        for (int i = 0; i < 2; ++i)
+                        {
+                            tm = std::tm{};
+                            tm.tm_hour = 1 + i * 12;
+                            std::basic_ostringstream<CharT> os;
+                            os.imbue(is.getloc());
+                            std::use_facet<std::time_put<CharT>>(os.getloc()).put(os, os, os.fill(), &tm, command, fmt + 1);
+                            nm[i] = os.str();
+                        }
+                        tp = static_cast<int>(detail::scan_keyword(is, nm, nm + 2) - nm);
 #else
                         auto nm = detail::ampm_names();
                         auto i = detail::scan_keyword(is, nm.first, nm.second) - nm.first;
-- 
2.43.0


From 188cb886e9ac496ea90f88932b9cb15e120e9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 30/42] fix: const char* arguments point to freed memory after
 parsing

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 551b45a..d86e43e 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <deque>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -172,7 +173,7 @@ protected:
     typename std::enable_if_t<std::is_same_v<T, const char*>, T>
     convert(const std::string& str) const
     {
-        return str.c_str();
+        return _c_strings.emplace_back(str).c_str();
     }
 
     // Specialization for int
@@ -293,6 +294,7 @@ private:
     const std::string _name_short;
     const std::string _description;
     const std::string _env;
+    mutable std::deque<std::string> _c_strings; // what converted const char* values point to
 };
 
 }
-- 
2.43.0


From 0a2f64c96f2dceb5cbed6f73c0e5d52d417c9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 31/42] fix: restore the CRLF line endings of three files that
 earlier fixes converted

---
 sdk/include/teiacare/sdk/geometry/point.hpp | 586 ++++++++++----------
 sdk/src/datetime/date.cpp                   |  96 ++--
 sdk/src/datetime/datetime.cpp               | 132 ++---
 3 files changed, 407 insertions(+), 407 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/point.hpp b/sdk/include/teiacare/sdk/geometry/point.hpp
index d5dd15d..1f395f6 100644
--- a/sdk/include/teiacare/sdk/geometry/point.hpp
+++ b/sdk/include/teiacare/sdk/geometry/point.hpp
@@ -1,293 +1,293 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#pragma once
-
-#include <cmath>
-#include <string>
-
-namespace tc::sdk
-{
-/*!
- * \class point
- * \brief 2D point specified by a pair of (x,y) coordinates.
- * \tparam T Coordinates type
- *
- */
-template <typename T>
-class point
-{
-public:
-    /*!
-     * \brief Default Constructor. Creates a default tc::sdk::point instance.
-     */
-    constexpr point() = default;
-
-    /*!
-     * \brief Copy Constructor. Copy a tc::sdk::point instance into another one.
-     */
-    constexpr point(const point&) = default;
-
-    /*!
-     * \brief Move Constructor. Copy a tc::sdk::point instance into another one.
-     */
-    constexpr point(point&&) = default;
-
-    /*!
-     * \brief Constructor. Creates tc::sdk::point instance with given X and Y coordinates.
-     * \param x the X coordinate of the point
-     * \param y the Y coordinate of the point
-     */
-    constexpr explicit point(T x, T y) noexcept
-        : _x{x}
-        , _y{y}
-    {
-    }
-
-    /*!
-     * \brief Assignment operator. Assign a tc::sdk::point instance to another one.
-     */
-    point& operator=(const point&) = default;
-
-    /*!
-     * \brief Move assignment operator. Assign a tc::sdk::point instance to another one.
-     */
-    point& operator=(point&&) = default;
-
-    /*!
-     * \brief Equality operator.
-     * \param other the point to compare against.
-     * \return true if the two points have the same coordinates.
-     */
-    constexpr inline bool operator==(const point& other) const noexcept
-    {
-        return _x == other._x && _y == other._y;
-    }
-
-    /*!
-     * \brief Inequality operator.
-     * \param other the point to compare against.
-     * \return true if the two points have the different coordinates.
-     */
-    constexpr inline bool operator!=(const point& other) const noexcept
-    {
-        return !operator==(other);
-    }
-
-    /*!
-     * \brief Check if the point is the origin.
-     * \return true if the point has coordinates (0,0)
-     */
-    constexpr bool is_origin() const noexcept
-    {
-        return *this == point();
-    }
-
-    /*!
-     * \brief X coordinate getter.
-     * \return X coordinate of the point.
-     */
-    constexpr inline T x() const noexcept
-    {
-        return _x;
-    }
-
-    /*!
-     * \brief Y coordinate getter.
-     * \return Y coordinate of the point.
-     */
-    constexpr inline T y() const noexcept
-    {
-        return _y;
-    }
-
-    /*!
-     * \brief X coordinate setter. Set the X coordinate of the point.
-     */
-    inline void set_x(T x) noexcept
-    {
-        _x = x;
-    }
-
-    /*!
-     * \brief Y coordinate setter. Set the Y coordinate of the point.
-     */
-    inline void set_y(T y) noexcept
-    {
-        _y = y;
-    }
-
-    /*!
-     * \brief Increments point's coordinate of delta_x and delta_y values.
-     * \param delta_x Value to be added to the current X coordinate.
-     * \param delta_y Value to be added to the current Y coordinate.
-     */
-    void add_delta(T delta_x, T delta_y) noexcept
-    {
-        _x += delta_x;
-        _y += delta_y;
-    }
-
-    /*!
-     * \brief Decrements point's coordinate of delta_x and delta_y values.
-     * \param delta_x Value to be added to the current X coordinate.
-     * \param delta_y Value to be added to the current Y coordinate.
-     */
-    void sub_delta(T delta_x, T delta_y) noexcept
-    {
-        _x -= delta_x;
-        _y -= delta_y;
-    }
-
-    /*!
-     * \brief Distance between the current point and the origin.
-     * \return The resulting distance.
-     */
-    constexpr T distance_from_origin() const noexcept
-    {
-        const double x = static_cast<double>(_x);
-        const double y = static_cast<double>(_y);
-        return static_cast<T>(std::sqrt(x * x + y * y));
-    }
-
-    /*!
-     * \brief Distance between the current point and another one.
-     * \param other The point to compute the distance from.
-     * \return The resulting distance.
-     */
-    constexpr T distance(point other) const noexcept
-    {
-        const double dx = static_cast<double>(other._x) - static_cast<double>(_x);
-        const double dy = static_cast<double>(other._y) - static_cast<double>(_y);
-        return static_cast<T>(std::sqrt(dx * dx + dy * dy));
-    }
-
-    /*!
-     * \brief Add two points.
-     * \param other The point to be added to the current one.
-     * \return The resulting point.
-     */
-    constexpr point operator+(point other) const noexcept
-    {
-        return point{_x + other._x, _y + other._y};
-    }
-
-    /*!
-     * \brief Add another point's coordinate to the current one.
-     * \param other The point to be added to the current one.
-     * \return The current point instance after the addition of the other.
-     */
-    point& operator+=(point other) noexcept
-    {
-        _x += other._x;
-        _y += other._y;
-        return *this;
-    }
-
-    /*!
-     * \brief Subtract two points.
-     * \param other The point to be subtracted to the current one.
-     * \return The resulting point.
-     */
-    constexpr point operator-(point other) const noexcept
-    {
-        return point{_x - other._x, _y - other._y};
-    }
-
-    /*!
-     * \brief Subtract another point's coordinate to the current one.
-     * \param other The point to be subtracted to the current one.
-     * \return The current point instance after the subtraction of the other.
-     */
-    point& operator-=(point other) noexcept
-    {
-        _x -= other._x;
-        _y -= other._y;
-        return *this;
-    }
-
-    /*!
-     * \brief Multiply current point's coordinate by a scalar value.
-     * \param scalar The scalar value to multiply the current point with.
-     * \return The current point instance after the scalar multiplication with the scalar value.
-     */
-    template <typename ScalarT>
-    point& operator*=(ScalarT scalar) noexcept
-    {
-        _x = static_cast<T>(_x * scalar);
-        _y = static_cast<T>(_y * scalar);
-        return *this;
-    }
-
-    /*!
-     * \brief Multiply a point by a given scalar value.
-     * \param scalar The scalar value to multiply the resulting point with.
-     * \return The resulting point.
-     */
-    template <typename ScalarT>
-    constexpr point operator*(ScalarT scalar) const noexcept
-    {
-        return point{static_cast<T>(_x * scalar), static_cast<T>(_y * scalar)};
-    }
-
-    /*!
-     * \brief Divide current point's coordinate by a scalar value.
-     * \param scalar The scalar value to multiply the current point with.
-     * \return The current point instance after the scalar multiplication with the scalar value.
-     */
-    template <typename ScalarT>
-    point& operator/=(ScalarT scalar)
-    {
-        _x = static_cast<T>(_x / scalar);
-        _y = static_cast<T>(_y / scalar);
-        return *this;
-    }
-
-    /*!
-     * \brief Divide a point by a given scalar value.
-     * \param scalar The scalar value to divide the resulting point with.
-     * \return The resulting point.
-     */
-    template <typename ScalarT>
-    constexpr point operator/(ScalarT scalar) const
-    {
-        return point{static_cast<T>(_x / scalar), static_cast<T>(_y / scalar)};
-    }
-
-    /*!
-     * \brief Get the point string representation
-     * \return String representation of the current point.
-     */
-    constexpr std::string to_string() const
-    {
-        return std::string("(" + std::to_string(_x) + ", " + std::to_string(_y) + ")");
-    }
-
-    /*!
-     * \brief Output stream operator.
-     * \param stream the output stream to write into.
-     * \param p the point object to stream.
-     * \return reference to the output stream operator, with the point string representation written into it.
-     */
-    friend std::ostream& operator<<(std::ostream& stream, const point& p)
-    {
-        return stream << p.to_string();
-    }
-
-private:
-    T _x{};
-    T _y{};
-};
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#pragma once
+
+#include <cmath>
+#include <string>
+
+namespace tc::sdk
+{
+/*!
+ * \class point
+ * \brief 2D point specified by a pair of (x,y) coordinates.
+ * \tparam T Coordinates type
+ *
+ */
+template <typename T>
+class point
+{
+public:
+    /*!
+     * \brief Default Constructor. Creates a default tc::sdk::point instance.
+     */
+    constexpr point() = default;
+
+    /*!
+     * \brief Copy Constructor. Copy a tc::sdk::point instance into another one.
+     */
+    constexpr point(const point&) = default;
+
+    /*!
+     * \brief Move Constructor. Copy a tc::sdk::point instance into another one.
+     */
+    constexpr point(point&&) = default;
+
+    /*!
+     * \brief Constructor. Creates tc::sdk::point instance with given X and Y coordinates.
+     * \param x the X coordinate of the point
+     * \param y the Y coordinate of the point
+     */
+    constexpr explicit point(T x, T y) noexcept
+        : _x{x}
+        , _y{y}
+    {
+    }
+
+    /*!
+     * \brief Assignment operator. Assign a tc::sdk::point instance to another one.
+     */
+    point& operator=(const point&) = default;
+
+    /*!
+     * \brief Move assignment operator. Assign a tc::sdk::point instance to another one.
+     */
+    point& operator=(point&&) = default;
+
+    /*!
+     * \brief Equality operator.
+     * \param other the point to compare against.
+     * \return true if the two points have the same coordinates.
+     */
+    constexpr inline bool operator==(const point& other) const noexcept
+    {
+        return _x == other._x && _y == other._y;
+    }
+
+    /*!
+     * \brief Inequality operator.
+     * \param other the point to compare against.
+     * \return true if the two points have the different coordinates.
+     */
+    constexpr inline bool operator!=(const point& other) const noexcept
+    {
+        return !operator==(other);
+    }
+
+    /*!
+     * \brief Check if the point is the origin.
+     * \return true if the point has coordinates (0,0)
+     */
+    constexpr bool is_origin() const noexcept
+    {
+        return *this == point();
+    }
+
+    /*!
+     * \brief X coordinate getter.
+     * \return X coordinate of the point.
+     */
+    constexpr inline T x() const noexcept
+    {
+        return _x;
+    }
+
+    /*!
+     * \brief Y coordinate getter.
+     * \return Y coordinate of the point.
+     */
+    constexpr inline T y() const noexcept
+    {
+        return _y;
+    }
+
+    /*!
+     * \brief X coordinate setter. Set the X coordinate of the point.
+     */
+    inline void set_x(T x) noexcept
+    {
+        _x = x;
+    }
+
+    /*!
+     * \brief Y coordinate setter. Set the Y coordinate of the point.
+     */
+    inline void set_y(T y) noexcept
+    {
+        _y = y;
+    }
+
+    /*!
+     * \brief Increments point's coordinate of delta_x and delta_y values.
+     * \param delta_x Value to be added to the current X coordinate.
+     * \param delta_y Value to be added to the current Y coordinate.
+     */
+    void add_delta(T delta_x, T delta_y) noexcept
+    {
+        _x += delta_x;
+        _y += delta_y;
+    }
+
+    /*!
+     * \brief Decrements point's coordinate of delta_x and delta_y values.
+     * \param delta_x Value to be added to the current X coordinate.
+     * \param delta_y Value to be added to the current Y coordinate.
+     */
+    void sub_delta(T delta_x, T delta_y) noexcept
+    {
+        _x -= delta_x;
+        _y -= delta_y;
+    }
+
+    /*!
+     * \brief Distance between the current point and the origin.
+     * \return The resulting distance.
+     */
+    constexpr T distance_from_origin() const noexcept
+    {
+        const double x = static_cast<double>(_x);
+        const double y = static_cast<double>(_y);
+        return static_cast<T>(std::sqrt(x * x + y * y));
+    }
+
+    /*!
+     * \brief Distance between the current point and another one.
+     * \param other The point to compute the distance from.
+     * \return The resulting distance.
+     */
+    constexpr T distance(point other) const noexcept
+    {
+        const double dx = static_cast<double>(other._x) - static_cast<double>(_x);
+        const double dy = static_cast<double>(other._y) - static_cast<double>(_y);
+        return static_cast<T>(std::sqrt(dx * dx + dy * dy));
+    }
+
+    /*!
+     * \brief Add two points.
+     * \param other The point to be added to the current one.
+     * \return The resulting point.
+     */
+    constexpr point operator+(point other) const noexcept
+    {
+        return point{_x + other._x, _y + other._y};
+    }
+
+    /*!
+     * \brief Add another point's coordinate to the current one.
+     * \param other The point to be added to the current one.
+     * \return The current point instance after the addition of the other.
+     */
+    point& operator+=(point other) noexcept
+    {
+        _x += other._x;
+        _y += other._y;
+        return *this;
+    }
+
+    /*!
+     * \brief Subtract two points.
+     * \param other The point to be subtracted to the current one.
+     * \return The resulting point.
+     */
+    constexpr point operator-(point other) const noexcept
+    {
+        return point{_x - other._x, _y - other._y};
+    }
+
+    /*!
+     * \brief Subtract another point's coordinate to the current one.
+     * \param other The point to be subtracted to the current one.
+     * \return The current point instance after the subtraction of the other.
+     */
+    point& operator-=(point other) noexcept
+    {
+        _x -= other._x;
+        _y -= other._y;
+        return *this;
+    }
+
+    /*!
+     * \brief Multiply current point's coordinate by a scalar value.
+     * \param scalar The scalar value to multiply the current point with.
+     * \return The current point instance after the scalar multiplication with the scalar value.
+     */
+    template <typename ScalarT>
+    point& operator*=(ScalarT scalar) noexcept
+    {
+        _x = static_cast<T>(_x * scalar);
+        _y = static_cast<T>(_y * scalar);
+        return *this;
+    }
+
+    /*!
+     * \brief Multiply a point by a given scalar value.
+     * \param scalar The scalar value to multiply the resulting point with.
+     * \return The resulting point.
+     */
+    template <typename ScalarT>
+    constexpr point operator*(ScalarT scalar) const noexcept
+    {
+        return point{static_cast<T>(_x * scalar), static_cast<T>(_y * scalar)};
+    }
+
+    /*!
+     * \brief Divide current point's coordinate by a scalar value.
+     * \param scalar The scalar value to multiply the current point with.
+     * \return The current point instance after the scalar multiplication with the scalar value.
+     */
+    template <typename ScalarT>
+    point& operator/=(ScalarT scalar)
+    {
+        _x = static_cast<T>(_x / scalar);
+        _y = static_cast<T>(_y / scalar);
+        return *this;
+    }
+
+    /*!
+     * \brief Divide a point by a given scalar value.
+     * \param scalar The scalar value to divide the resulting point with.
+     * \return The resulting point.
+     */
+    template <typename ScalarT>
+    constexpr point operator/(ScalarT scalar) const
+    {
+        return point{static_cast<T>(_x / scalar), static_cast<T>(_y / scalar)};
+    }
+
+    /*!
+     * \brief Get the point string representation
+     * \return String representation of the current point.
+     */
+    constexpr std::string to_string() const
+    {
+        return std::string("(" + std::to_string(_x) + ", " + std::to_string(_y) + ")");
+    }
+
+    /*!
+     * \brief Output stream operator.
+     * \param stream the output stream to write into.
+     * \param p the point object to stream.
+     * \return reference to the output stream operator, with the point string representation written into it.
+     */
+    friend std::ostream& operator<<(std::ostream& stream, const point& p)
+    {
+        return stream << p.to_string();
+    }
+
+private:
+    T _x{};
+    T _y{};
+};
+
+}
diff --git a/sdk/src/datetime/date.cpp b/sdk/src/datetime/date.cpp
index 7680763..bb36cab 100644
--- a/sdk/src/datetime/date.cpp
+++ b/sdk/src/datetime/date.cpp
@@ -1,48 +1,48 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#include "date.h"
-
-#include <teiacare/sdk/datetime/date.hpp>
-
-namespace tc::sdk
-{
-std::ostream& operator<<(std::ostream& stream, const tc::sdk::date& d)
-{
-    return stream << d.to_string();
-}
-
-std::string date::to_string(const std::string& format) const noexcept(false)
-{
-    return ::date::format(format, std::chrono::sys_days(_ymd));
-}
-
-tc::sdk::date date::from_string(const std::string& str, const std::string& format) noexcept(false)
-{
-    std::chrono::sys_days parsed_date;
-    std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_date);
-    if (ss.fail())
-        throw std::runtime_error("Failed to parse " + str);
-
-    return tc::sdk::date(std::chrono::year_month_day{parsed_date});
-}
-
-tc::sdk::date date::today() noexcept
-{
-    const std::chrono::system_clock::time_point now = std::chrono::floor<std::chrono::days>(std::chrono::system_clock::now());
-    return tc::sdk::date{now};
-}
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#include "date.h"
+
+#include <teiacare/sdk/datetime/date.hpp>
+
+namespace tc::sdk
+{
+std::ostream& operator<<(std::ostream& stream, const tc::sdk::date& d)
+{
+    return stream << d.to_string();
+}
+
+std::string date::to_string(const std::string& format) const noexcept(false)
+{
+    return ::date::format(format, std::chrono::sys_days(_ymd));
+}
+
+tc::sdk::date date::from_string(const std::string& str, const std::string& format) noexcept(false)
+{
+    std::chrono::sys_days parsed_date;
+    std::stringstream ss{str};
+    ss >> ::date::parse(format, parsed_date);
+    if (ss.fail())
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::date(std::chrono::year_month_day{parsed_date});
+}
+
+tc::sdk::date date::today() noexcept
+{
+    const std::chrono::system_clock::time_point now = std::chrono::floor<std::chrono::days>(std::chrono::system_clock::now());
+    return tc::sdk::date{now};
+}
+
+}
diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index 1e2df92..556de93 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -1,66 +1,66 @@
-// Copyright 2024 TeiaCare
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//     http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-
-#include <teiacare/sdk/datetime/datetime.hpp>
-
-#include "date.h"
-
-namespace tc::sdk
-{
-std::ostream& operator<<(std::ostream& stream, const datetime& dt)
-{
-    return stream << dt.to_string();
-}
-
-template <class DurationT>
-std::string datetime::to_string(const std::string& format) const noexcept(false)
-{
-    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
-}
-
-template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::milliseconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::microseconds>(const std::string& format) const noexcept(false);
-template std::string datetime::to_string<std::chrono::nanoseconds>(const std::string& format) const noexcept(false);
-
-template <class DurationT>
-tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
-{
-    std::chrono::sys_time<DurationT> parsed_time;
-    std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_time);
-    if (ss.fail())
-        throw std::runtime_error("Failed to parse " + str);
-
-    return tc::sdk::datetime(parsed_time);
-}
-
-template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::milliseconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::microseconds>(const std::string& str, const std::string& format) noexcept(false);
-template tc::sdk::datetime datetime::from_string<std::chrono::nanoseconds>(const std::string& str, const std::string& format) noexcept(false);
-
-template <class DurationT>
-tc::sdk::datetime datetime::utc_now() noexcept
-{
-    const auto now = std::chrono::system_clock::now();
-    return tc::sdk::datetime{std::chrono::time_point_cast<DurationT>(now)};
-}
-
-template tc::sdk::datetime datetime::utc_now<std::chrono::seconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::milliseconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::microseconds>() noexcept;
-template tc::sdk::datetime datetime::utc_now<std::chrono::nanoseconds>() noexcept;
-
-}
+// Copyright 2024 TeiaCare
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#include <teiacare/sdk/datetime/datetime.hpp>
+
+#include "date.h"
+
+namespace tc::sdk
+{
+std::ostream& operator<<(std::ostream& stream, const datetime& dt)
+{
+    return stream << dt.to_string();
+}
+
+template <class DurationT>
+std::string datetime::to_string(const std::string& format) const noexcept(false)
+{
+    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
+}
+
+template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::milliseconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::microseconds>(const std::string& format) const noexcept(false);
+template std::string datetime::to_string<std::chrono::nanoseconds>(const std::string& format) const noexcept(false);
+
+template <class DurationT>
+tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
+{
+    std::chrono::sys_time<DurationT> parsed_time;
+    std::stringstream ss{str};
+    ss >> ::date::parse(format, parsed_time);
+    if (ss.fail())
+        throw std::runtime_error("Failed to parse " + str);
+
+    return tc::sdk::datetime(parsed_time);
+}
+
+template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::milliseconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::microseconds>(const std::string& str, const std::string& format) noexcept(false);
+template tc::sdk::datetime datetime::from_string<std::chrono::nanoseconds>(const std::string& str, const std::string& format) noexcept(false);
+
+template <class DurationT>
+tc::sdk::datetime datetime::utc_now() noexcept
+{
+    const auto now = std::chrono::system_clock::now();
+    return tc::sdk::datetime{std::chrono::time_point_cast<DurationT>(now)};
+}
+
+template tc::sdk::datetime datetime::utc_now<std::chrono::seconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::milliseconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::microseconds>() noexcept;
+template tc::sdk::datetime datetime::utc_now<std::chrono::nanoseconds>() noexcept;
+
+}
-- 
2.43.0


From 864743020d8e29c7aae0781b279a1c05fed4c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:37 +0000
Subject: [PATCH 32/42] fix: blocking_queue::try_pop loses the item if copying
 it throws

---
 sdk/include/teiacare/sdk/blocking_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/blocking_queue.hpp b/sdk/include/teiacare/sdk/blocking_queue.hpp
index 02f5a89..8fb5882 100644
--- a/sdk/include/teiacare/sdk/blocking_queue.hpp
+++ b/sdk/include/teiacare/sdk/blocking_queue.hpp
@@ -162,11 +162,12 @@ public:
         if (is_empty())
             return std::nullopt;
 
-        T item = _queue.front();
+        // The item is removed only after it has been copied, so that it is not lost if copying it throws.
+        std::optional<T> item(std::in_place, _queue.front());
         _queue.pop();
         pop_impl(std::move(lock));
 
-        return std::move(std::optional(item));
+        return item;
     }
 
     /*!
-- 
2.43.0


From 764595a2418d5c783a4c3849391b91fdca05b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 33/42] fix: a failed event_dispatcher::add_handler leaves an
 event without handlers behind

---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 0942f85..4b60388 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -115,7 +115,9 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++_handler_id, std::move(event_handler)));
+        // The handler is created first: if that fails the event must not be left behind without handlers.
+        auto handler = std::make_shared<handler_t<Args...>>(++_handler_id, std::move(event_handler));
+        _handlers[event_handler_id].emplace_back(std::move(handler));
         return _handler_id;
     }
 
-- 
2.43.0


From 093f609693e9fef1bc4e9528459bc84b31c5266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 34/42] fix: dividing a timedelta by zero terminates the
 program

The integer division raises SIGFPE; operator/ is documented as able to throw, so throw std::domain_error.
---
 sdk/include/teiacare/sdk/datetime/timedelta.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/include/teiacare/sdk/datetime/timedelta.hpp b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
index 85a6446..7668184 100644
--- a/sdk/include/teiacare/sdk/datetime/timedelta.hpp
+++ b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
@@ -16,6 +16,7 @@
 
 #include <chrono>
 #include <ostream>
+#include <stdexcept>
 
 namespace tc::sdk
 {
@@ -289,6 +290,9 @@ public:
      */
     constexpr inline tc::sdk::timedelta operator/(int64_t divider) const noexcept(false)
     {
+        if (divider == 0)
+            throw std::domain_error("timedelta division by zero");
+
         return tc::sdk::timedelta{_duration / divider};
     }
 
-- 
2.43.0


From 181d4c3c1a685b4610d8a6395a72f8e95064c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 35/42] fix: a thread_pool::start that cannot create its
 threads leaves the pool unusable

The exception left the pool marked as running with joinable workers blocked on the start latch: the next
stop, or the destructor, waited for them forever. Release and join them, and go back to the stopped state.
---
 sdk/src/thread_pool.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 75eb3bd..c3a6b19 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -34,15 +34,30 @@ bool thread_pool::start(const unsigned int num_threads)
     if (_is_running)
         return false;
 
-    _is_running = true;
-
     const auto thread_count = std::clamp(num_threads, 1u, std::thread::hardware_concurrency());
     _threads.reserve(thread_count);
     is_ready = std::make_shared<std::latch>(thread_count + 1);
 
-    for (unsigned int i = 0; i < thread_count; ++i)
+    _is_running = true;
+
+    try
     {
-        _threads.emplace_back([this] { worker(); });
+        for (unsigned int i = 0; i < thread_count; ++i)
+        {
+            _threads.emplace_back([this] { worker(); });
+        }
+    }
+    catch (...)
+    {
+        // Not all the workers could be created: the ones waiting for the others must be released and terminate.
+        _is_running = false;
+        is_ready->count_down(thread_count + 1 - _threads.size());
+
+        for (auto&& t : _threads)
+            t.join();
+
+        _threads.clear();
+        throw;
     }
 
     is_ready->arrive_and_wait();
-- 
2.43.0


From 8e82f6cff44e32cca261f157e4c3dc23b8a81df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 36/42] fix: a task_scheduler::start that cannot create its
 thread leaves the scheduler marked as running

A later start was refused and stop terminated on a thread that is not joinable. Go back to the stopped state.
---
 sdk/src/task_scheduler.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 207b07b..7abb3c3 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -29,6 +29,9 @@ task_scheduler::~task_scheduler()
 
 bool task_scheduler::start(const unsigned int num_threads)
 {
+    std::promise<void> thread_started_notifier;
+    std::future<void> thread_started_watcher = thread_started_notifier.get_future();
+
     std::scoped_lock running_lock(_is_running_mtx);
     if (!_tp.start(num_threads))
         return false;
@@ -38,10 +41,7 @@ bool task_scheduler::start(const unsigned int num_threads)
         _is_running = true;
     }
 
-    std::promise<void> thread_started_notifier;
-    std::future<void> thread_started_watcher = thread_started_notifier.get_future();
-
-    _scheduler_thread = std::thread([this, &thread_started_notifier] {
+    auto scheduler = [this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
         std::unique_lock lock(_update_tasks_mtx);
@@ -67,7 +67,24 @@ bool task_scheduler::start(const unsigned int num_threads)
 
             update_tasks();
         }
-    });
+    };
+
+    try
+    {
+        _scheduler_thread = std::thread(scheduler);
+    }
+    catch (...)
+    {
+        // The scheduler thread could not be created: go back to the stopped state.
+        {
+            std::scoped_lock lock(_update_tasks_mtx);
+            _is_running = false;
+            _tasks.clear();
+        }
+
+        _tp.stop();
+        throw;
+    }
 
     thread_started_watcher.wait();
 
-- 
2.43.0


From 2c5bc49e1f0cf857be178684d0f3ce6fc90c0696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 37/42] fix: event_dispatcher::add_handler leaves an event
 without handlers behind when memory runs out

---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 4b60388..3004bd4 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -117,7 +117,11 @@ public:
         std::unique_lock handlers_lock(_handlers_mutex);
         // The handler is created first: if that fails the event must not be left behind without handlers.
         auto handler = std::make_shared<handler_t<Args...>>(++_handler_id, std::move(event_handler));
-        _handlers[event_handler_id].emplace_back(std::move(handler));
+        if (auto event = _handlers.find(event_handler_id); event != _handlers.end())
+            event->second.emplace_back(std::move(handler));
+        else
+            _handlers.emplace(event_handler_id, std::vector<std::shared_ptr<base_handler_t>>{std::move(handler)});
+
         return _handler_id;
     }
 
-- 
2.43.0


From 30019f5d1391eff245051e49cbcfba2093f21397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 38/42] fix: service_locator mixes up interfaces of the same
 name in different translation units

std::type_info::hash_code() is the hash of the mangled name: two interfaces in anonymous namespaces of different
translation units are different types but may have the same name, so a service registered for one of them was
returned (as an object of another class) for the other. std::type_index compares the types.
---
 sdk/include/teiacare/sdk/service_locator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index 564b4eb..4aff4af 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -19,7 +19,7 @@
 
 #include <memory>
 #include <type_traits>
-#include <typeinfo>
+#include <typeindex>
 #include <unordered_map>
 
 namespace tc::sdk
@@ -126,12 +126,12 @@ private:
     explicit service_locator() = default;
 
     template <typename T>
-    size_t get_id() const noexcept
+    std::type_index get_id() const noexcept
     {
-        return std::move(typeid(T).hash_code());
+        return std::type_index(typeid(T));
     }
 
-    std::unordered_map<size_t, std::shared_ptr<void>> _services;
+    std::unordered_map<std::type_index, std::shared_ptr<void>> _services;
 };
 
 }
-- 
2.43.0


From 3826a4499c18a0672e33f762830f27bb790d1f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:40 +0000
Subject: [PATCH 39/42] fix: days of the year that do not exist are read as
 days of the same year

---
 sdk/src/datetime/date.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index 1fd0c89..351ded4 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -7625,6 +7625,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             if (j != not_a_doy && Y != not_a_year)
             {
                 auto ymd_trial = year_month_day{local_days(year{Y} / 1 / 1) + days{j - 1}};
+                if (year{Y} != ymd_trial.year())
+                    goto broken;
                 if (m == not_a_month)
                     m = static_cast<int>(static_cast<unsigned>(ymd_trial.month()));
                 else if (month(static_cast<unsigned>(m)) != ymd_trial.month())
-- 
2.43.0


From 668bbbfcedf11c8932767591698b03a01030c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:40 +0000
Subject: [PATCH 40/42] fix: weeks that do not exist or contradict the date are
 accepted in text

---
 sdk/src/datetime/date.h | 61 ++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index 351ded4..134c8aa 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -7568,7 +7568,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             }
             if (Y < static_cast<int>(year::min()) || Y > static_cast<int>(year::max()))
                 Y = not_a_year;
-            bool computed = false;
             if (G != not_a_year && V != not_a_week_num && wd != not_a_weekday)
             {
                 year_month_day ymd_trial = sys_days(year{G - 1} / December / Thursday[last]) +
@@ -7586,7 +7585,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (Y != not_a_year && U != not_a_week_num && wd != not_a_weekday)
             {
@@ -7603,7 +7601,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (Y != not_a_year && W != not_a_week_num && wd != not_a_weekday)
             {
@@ -7620,7 +7617,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (j != not_a_doy && Y != not_a_year)
             {
@@ -7644,44 +7640,41 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     wd = static_cast<int>((weekday(sys_days(ymd)) - Sunday).count());
                 else if (wd != static_cast<int>((weekday(sys_days(ymd)) - Sunday).count()))
                     goto broken;
-                if (!computed)
+                if (G != not_a_year || V != not_a_week_num)
                 {
-                    if (G != not_a_year || V != not_a_week_num)
+                    sys_days sd = ymd;
+                    auto G_trial = year_month_day{sd + days{3}}.year();
+                    auto start = sys_days((G_trial - years{1}) / December / Thursday[last]) +
+                                 (Monday - Thursday);
+                    if (sd < start)
                     {
-                        sys_days sd = ymd;
-                        auto G_trial = year_month_day{sd + days{3}}.year();
-                        auto start = sys_days((G_trial - years{1}) / December / Thursday[last]) +
-                                     (Monday - Thursday);
-                        if (sd < start)
-                        {
-                            --G_trial;
-                            if (V != not_a_week_num)
-                                start = sys_days((G_trial - years{1}) / December / Thursday[last]) + (Monday - Thursday);
-                        }
-                        if (G != not_a_year && G != static_cast<int>(G_trial))
-                            goto broken;
+                        --G_trial;
                         if (V != not_a_week_num)
-                        {
-                            auto V_trial = duration_cast<weeks>(sd - start).count() + 1;
-                            if (V != V_trial)
-                                goto broken;
-                        }
+                            start = sys_days((G_trial - years{1}) / December / Thursday[last]) + (Monday - Thursday);
                     }
-                    if (U != not_a_week_num)
-                    {
-                        auto start = sys_days(Sunday[1] / January / ymd.year());
-                        auto U_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
-                        if (U != U_trial)
-                            goto broken;
-                    }
-                    if (W != not_a_week_num)
+                    if (G != not_a_year && G != static_cast<int>(G_trial))
+                        goto broken;
+                    if (V != not_a_week_num)
                     {
-                        auto start = sys_days(Monday[1] / January / ymd.year());
-                        auto W_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
-                        if (W != W_trial)
+                        auto V_trial = duration_cast<weeks>(sd - start).count() + 1;
+                        if (V != V_trial)
                             goto broken;
                     }
                 }
+                if (U != not_a_week_num)
+                {
+                    auto start = sys_days(Sunday[1] / January / ymd.year());
+                    auto U_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
+                    if (U != U_trial)
+                        goto broken;
+                }
+                if (W != not_a_week_num)
+                {
+                    auto start = sys_days(Monday[1] / January / ymd.year());
+                    auto W_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
+                    if (W != W_trial)
+                        goto broken;
+                }
             }
             fds.ymd = ymd;
             if (I != not_a_hour_12_value)
-- 
2.43.0


From 1a3b20f5069c11885cf5e7aff008ca043af40323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:40 +0000
Subject: [PATCH 41/42] fix: month 00 and day 00 are taken for missing ones and
 replaced

---
 sdk/src/datetime/date.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index 134c8aa..91590e0 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -6446,8 +6446,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
         CONSTDATA int not_a_year = numeric_limits<short>::min();
         CONSTDATA int not_a_2digit_year = 100;
         CONSTDATA int not_a_century = numeric_limits<int>::min();
-        CONSTDATA int not_a_month = 0;
-        CONSTDATA int not_a_day = 0;
+        CONSTDATA int not_a_month = -1;
+        CONSTDATA int not_a_day = -1;
         CONSTDATA int not_a_hour = numeric_limits<int>::min();
         CONSTDATA int not_a_hour_12_value = 0;
         CONSTDATA int not_a_minute = not_a_hour;
-- 
2.43.0


From 0a5bc48647a8bee28f48d526d805e8b79d507673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:24 +0000
Subject: [PATCH 42/42] fix: afternoon times are refused in text with hours of
 both clocks but without AM or PM

---
 sdk/src/datetime/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/datetime/date.h b/sdk/src/datetime/date.h
index 91590e0..e266b13 100644
--- a/sdk/src/datetime/date.h
+++ b/sdk/src/datetime/date.h
@@ -7704,7 +7704,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             if (H != 0 && H != 12)
                                 goto broken;
                         }
-                        else if (!(I == H || I == H + 12))
+                        else if (!(I == H || I + 12 == H))
                         {
                             goto broken;
                         }
-- 
2.43.0

