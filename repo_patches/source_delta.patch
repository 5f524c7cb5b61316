From e32fe09f6d2a24350107ef92f9a47ec562a1d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 01/27] fix: unsafe::reverse_append reverses the nodes of
 [first, last)

The node being prepended was read from end instead of first, so the nodes
of the range were dropped and end was linked to itself; forest::reverse
and reverse_nodes lost every child.
---
 include/stlab/algorithm/reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index aeb2a28..8b68749 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -32,7 +32,7 @@ namespace unsafe {
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
     while (first != last) {
-        I prior(end);
+        I prior(first);
         ++first;
         stlab::unsafe::set_next(prior, end);
         end = prior;
-- 
2.43.0


From 489c02aef1e6fd10e1a32a5afa7c6940c0782280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 02/27] fix: equal_shape compares forests of different length

When either size was not cached, equal_shape stopped at the end of the
first forest and ran past the end of the second.
---
 include/stlab/forest_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest_algorithms.hpp b/include/stlab/forest_algorithms.hpp
index 9ec9837..8cbd249 100644
--- a/include/stlab/forest_algorithms.hpp
+++ b/include/stlab/forest_algorithms.hpp
@@ -23,10 +23,11 @@ template <class Forest1, class Forest2>
 auto equal_shape(const Forest1& x, const Forest2& y) -> bool {
     if (x.size_valid() && y.size_valid() && x.size() != y.size()) return false;
     auto pos{y.begin()};
+    auto pos_last{y.end()};
     for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
-        if (first.edge() != pos.edge()) return false;
+        if (pos == pos_last || first.edge() != pos.edge()) return false;
     }
-    return true;
+    return pos == pos_last;
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 7e5deb4f274b2d73a10a1332d61dd78c3e1d63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 03/27] fix: forest::reverse of a child range that does not end
 at child_end

The step onto last landed on its trailing edge, because the relinking had
already replaced its prior link, and the reversal ran past the range.
---
 include/stlab/forest.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 1474226..d7245cb 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -1095,10 +1095,17 @@ auto forest<T>::insert_parent(child_iterator first, child_iterator last, const T
 
 template <class T>
 void forest<T>::reverse(child_iterator first, child_iterator last) {
-    iterator prior(first.base());
-    --prior;
-    first = unsafe::reverse_nodes(first, last);
-    unsafe::set_next(prior, first.base());
+    /*
+        NOTE : An iterator determines the edge it arrives at from the links of the node it arrives
+        at. Relinking the range in place would make the step onto `last` land on the wrong edge when
+        `last` is a sibling, so the children are moved to the front one at a time.
+    */
+
+    if (first == last) return;
+
+    iterator front(first.base());
+    for (child_iterator next(std::next(first)); next != last; next = std::next(first))
+        front = splice(front, *this, next.base());
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 18a7a8ce0a09963e574c96b2b4761bdde65cfef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 04/27] fix: move-assigning over a packaged_task or promise
 breaks the replaced promise

---
 include/stlab/concurrency/future.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index ce61c43..7dfa612 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -581,7 +581,11 @@ public:
     }
 
     promise(promise&&) noexcept = default;
-    auto operator=(promise&&) noexcept -> promise& = default;
+    auto operator=(promise&& x) noexcept -> promise& {
+        promise tmp{std::move(x)};
+        std::swap(_p, tmp._p); // a replaced promise is broken
+        return *this;
+    }
 
     promise(const promise&) = delete;
     auto operator=(const promise&) -> promise& = delete;
@@ -665,7 +669,11 @@ public:
     auto operator=(const packaged_task&) -> packaged_task& = delete;
 
     packaged_task(packaged_task&&) noexcept = default;
-    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;
+    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
+        packaged_task tmp{std::move(x)};
+        std::swap(_p, tmp._p); // a replaced task breaks its promise
+        return *this;
+    }
 
     template <class... A>
     void operator()(A&&... args) noexcept {
-- 
2.43.0


From 74ed88ab7e75a2e1e552c2fb57ef27cebdb3316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 05/27] fix: attaching to a detached move-only future drops the
 detach

---
 include/stlab/concurrency/future.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 7dfa612..379836c 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -461,6 +461,7 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
     std::mutex _mutex;
     std::atomic_bool _ready{false};
     then_t _then;
+    std::shared_ptr<shared_base> _detached; // holds the state of a detached future until ready
 
     explicit shared_base(executor_t s) : _executor(std::move(s)) {}
 
@@ -512,15 +513,17 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
 
     void _detach() {
         std::unique_lock<std::mutex> lock(_mutex);
-        if (!_ready) _then = then_t([](auto&&) {}, [_p = this->shared_from_this()]() noexcept {});
+        if (!_ready) _detached = this->shared_from_this();
     }
 
     void _set_exception(const std::exception_ptr& error) noexcept {
         _exception = error;
         then_t then;
+        std::shared_ptr<shared_base> detached;
         {
             std::unique_lock<std::mutex> lock(_mutex);
             if (_then.second) then = std::move(_then);
+            detached = std::move(_detached);
             _ready = true;
         }
         // propagate exception with scheduling
@@ -1667,10 +1670,12 @@ struct value_<T, enable_if_not_copyable<void_to_monostate_t<T>>> {
     template <class C>
     static void proceed(C& sb) {
         typename C::then_t then;
+        decltype(sb._detached) detached;
         {
             std::unique_lock<std::mutex> lock(sb._mutex);
             sb._ready = true;
             then = std::move(sb._then);
+            detached = std::move(sb._detached);
         }
         if (then.first) then.first(std::move(then.second));
     }
-- 
2.43.0


From 8ff35887f096bcdd9f8719a41715382daba5149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 06/27] fix: when_any of void futures forwards its executor
 once per argument

---
 include/stlab/concurrency/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 379836c..0301a89 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1243,8 +1243,8 @@ void attach_when_arg_(E&& executor, std::shared_ptr<P>& shared, T a) {
 
 template <class E, class P, class... Ts, std::size_t... I>
 void attach_when_args_(std::index_sequence<I...>, E&& executor, std::shared_ptr<P>& p, Ts... a) {
-    (void)std::initializer_list<int>{
-        (attach_when_arg_<I>(std::forward<E>(executor), p, std::move(a)), 0)...};
+    // the executor is used for every argument, it must not be moved from
+    (void)std::initializer_list<int>{(attach_when_arg_<I>(executor, p, std::move(a)), 0)...};
 }
 
 template <class E, class P, class... Ts>
-- 
2.43.0


From d1550a035044f1f5a62db40d54dc674b7f88c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 07/27] fix: when_all and when_any release canceled inputs
 outside of their lock

---
 include/stlab/concurrency/future.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 0301a89..37df149 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1098,10 +1098,11 @@ struct when_all_shared {
     void failure(const std::exception_ptr& error) {
         auto run{false};
         {
+            // released outside of the lock, canceling an input may complete another one
+            decltype(_holds) holds;
             std::unique_lock<std::mutex> lock{_guard};
             if (!_exception) {
-                for (auto& h : _holds)
-                    h.reset();
+                std::swap(holds, _holds);
                 _exception = error;
                 run = true;
             }
@@ -1436,10 +1437,12 @@ struct single_trigger {
     static auto go(C& context, F&& f, size_t index) -> bool {
         auto run{false};
         {
+            // released outside of the lock, canceling an input may complete another one
+            decltype(context._holds) holds(context._holds.size());
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
                 for (auto i = 0u; i < context._holds.size(); ++i) {
-                    if (i != index) context._holds[i].reset();
+                    if (i != index) swap(holds[i], context._holds[i]);
                 }
                 context._single_event = true;
                 context.apply(std::forward<F>(f), index);
-- 
2.43.0


From cf6138ca75f4d55b81a51e44787785dfab2f258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 08/27] fix: a task that returns a reference returns the
 reference

---
 include/stlab/concurrency/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index 4e4e541..2410554 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -262,7 +262,7 @@ public:
     }
 
     template <class... Brgs>
-    auto operator()(Brgs&&... brgs) noexcept(NoExcept) {
+    auto operator()(Brgs&&... brgs) noexcept(NoExcept) -> R {
         return _invoke(&_model, std::forward<Brgs>(brgs)...);
     }
 
-- 
2.43.0


From 3363da01cd2b403c61254d67fa958d7bf8ac87bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 09/27] fix: self move assignment and self swap of a task keep
 the callable

---
 include/stlab/concurrency/task.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index 2410554..da70005 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -224,6 +224,7 @@ public:
     auto operator=(const task_&) -> task_& = delete;
 
     auto operator=(task_&& x) noexcept -> task_& {
+        if (this == &x) return *this;
         _vtable_ptr->dtor(&_model);
         _vtable_ptr = x._vtable_ptr;
         _invoke = x._invoke;
-- 
2.43.0


From 4094ac5b8e0a92f9cc13052ba076833b5bc071fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 10/27] fix: assigning to a progress tracked function ends the
 tracking of the replaced one

---
 include/stlab/concurrency/progress.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/stlab/concurrency/progress.hpp b/include/stlab/concurrency/progress.hpp
index 1617665..897fa85 100644
--- a/include/stlab/concurrency/progress.hpp
+++ b/include/stlab/concurrency/progress.hpp
@@ -51,17 +51,18 @@ struct tracker_client {
         if (p) p->add_task();
     }
 
-    tracker_client& operator=(const tracker_client& x) {
-        _f = x._f;
-        _p = x._p;
+    tracker_client& operator=(const tracker_client& x) { return *this = tracker_client(x); }
+
+    tracker_client(tracker_client&&) = default;
+    tracker_client& operator=(tracker_client&& x) {
+        if (this == &x) return *this;
         auto p = _p.lock();
-        if (p) p->add_task();
+        _f = std::move(x._f);
+        _p = std::move(x._p);
+        if (p) p->drop_task();
         return *this;
     }
 
-    tracker_client(tracker_client&&) = default;
-    tracker_client& operator=(tracker_client&&) = default;
-
     tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _p(p) {
         p->add_task();
     }
-- 
2.43.0


From fa539c8cb870583de1e0a5da77046902e508aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 11/27] fix: annotations combined with & keep the executor and
 buffer size added last

---
 include/stlab/concurrency/channel.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 21bc9b2..156958f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1372,7 +1372,7 @@ struct annotated_process {
     annotated_process(F f, executor&& e) : _f(std::move(f)), _annotations(std::move(e._executor)) {}
     annotated_process(F f, annotations&& a) : _f(std::move(f)), _annotations(std::move(a)) {}
     annotated_process(executor_task_pair<F>&& etp, buffer_size bs) :
-        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs) {}
+        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}
 };
 
 template <typename B, typename E>
@@ -1433,14 +1433,14 @@ auto operator&(F&& f, detail::annotations&& a) -> detail::annotated_process<F> {
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, executor&& e) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._executor = std::move(e._executor);
+    result._annotations._executor = std::move(e._executor);
     return result;
 }
 
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, buffer_size bs) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._buffer_size = bs._value;
+    result._annotations._buffer_size = bs._value;
     return result;
 }
 
-- 
2.43.0


From ead2bf68845d0c616cbd6b2f8fab232cb7969376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 12/27] fix: a process is resumed once, when every process
 attached to it has room

clear_to_send scheduled a second run of a process that was already running, so a
process could be entered by two threads, lose the order of its values or exceed
the buffer of the next one. A dropped branch or a slower one could also leave
the process suspended for good.
---
 include/stlab/concurrency/channel.hpp | 146 ++++++++++++++++++--------
 1 file changed, 101 insertions(+), 45 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 156958f..c0e8cac 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -21,11 +21,11 @@
 #include <exception>
 #include <memory>
 #include <mutex>
-#include <numeric>
 #include <optional>
 #include <tuple>
 #include <utility>
 #include <variant>
+#include <vector>
 
 #include <stlab/concurrency/executor_base.hpp>
 #include <stlab/concurrency/traits.hpp>
@@ -630,10 +630,10 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
 
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-        return _shared_process._process_buffer_size == 0 ?
-                   std::numeric_limits<std::size_t>::max() :
-                   (_shared_process._process_buffer_size -
-                    _shared_process._queue.template queue_size<I>());
+        const std::size_t buffer_size = _shared_process._process_buffer_size;
+        const std::size_t queue_size = _shared_process._queue.template queue_size<I>();
+        if (buffer_size == 0) return std::numeric_limits<std::size_t>::max();
+        return queue_size < buffer_size ? buffer_size - queue_size : 0;
     }
 };
 
@@ -672,14 +672,13 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
         stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });
     }
 
-    [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (size() == 0) return 0;
-        // std::reduce with C++17
-        return std::accumulate(_data.cbegin(), _data.cend(),
-                               std::numeric_limits<std::size_t>::max(),
-                               [](auto val, const auto& e) {
-                                   return std::min(val, e.free_buffer() ? *e.free_buffer() : val);
-                               });
+    // The processes still attached to the receiver.
+    [[nodiscard]] auto attached() const {
+        std::vector<std::shared_ptr<shared_process_sender<R>>> result;
+        for (const auto& e : _data) {
+            if (auto p = e._p.lock()) result.push_back(std::move(p));
+        }
+        return result;
     }
 };
 
@@ -702,9 +701,13 @@ struct downstream<R,
         if (_data) (*_data)(std::forward<Args>(args)...);
     }
 
-    [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (_data && (*_data).free_buffer()) return *(*_data).free_buffer();
-        return 0;
+    // The process still attached to the receiver, if any.
+    [[nodiscard]] auto attached() const {
+        std::vector<std::shared_ptr<shared_process_sender<R>>> result;
+        if (_data) {
+            if (auto p = _data->_p.lock()) result.push_back(std::move(p));
+        }
+        return result;
     }
 };
 
@@ -741,7 +744,14 @@ struct shared_process
     std::mutex _process_mutex;
 
     bool _process_running = false;
-    std::atomic_size_t _process_suspend_count{0};
+    /*
+        A process is suspended after it has broadcast a value until every process attached to it has
+        room for another one. _process_suspend_id tells the suspensions apart.
+    */
+    bool _process_suspended = false;
+    std::size_t _process_suspend_id = 0;
+    bool _process_broadcasting = false;
+    bool _process_deferred = false; // a run was attempted while broadcasting
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
@@ -775,6 +785,13 @@ struct shared_process
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
+    ~shared_process() {
+        // this process may be the one its upstream was waiting for
+        tuple_for_each(_upstream, [](const auto& u) {
+            if (u) u->clear_to_send();
+        });
+    }
+
     void add_receiver() override {
         if (std::is_same_v<result_t, void>) return;
         ++_receiver_count;
@@ -824,28 +841,45 @@ struct shared_process
         }
     }
 
+    // Every process attached to this one has room for n more values.
+    auto has_room_for(std::size_t n) -> bool {
+        decltype(_downstream.attached()) attached; // released after the lock
+        {
+            std::unique_lock<std::mutex> lock(_downstream_mutex);
+            attached = _downstream.attached();
+        }
+        return std::all_of(attached.begin(), attached.end(),
+                           [n](const auto& e) { return e->free_buffer() >= n; });
+    }
+
+    // requires that _process_mutex is locked
+    [[nodiscard]] auto has_work(const process_state_scheduled& ps) const -> bool {
+        return ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
+    }
+
     void clear_to_send() override {
+        std::size_t suspend_id;
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) {
-                return;
-            }
+            if (_process_final || !_process_suspended) return;
+            suspend_id = _process_suspend_id;
         }
 
-        bool do_run = false;
+        if (!has_room_for(1)) return; // clear_to_send is called again when there is room
+
         {
-            const auto ps = get_process_state(_process);
+            // Somebody else may have resumed this process, which may have filled the buffer again
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?
-
-            if (!_process_suspend_count) {
-                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
-                    do_run = true;
-                } else {
-                    _process_running = false;
-                    do_run = false;
-                }
-            }
+            if (!_process_suspended || _process_suspend_id != suspend_id) return;
+            _process_suspended = false;
+        }
+
+        const auto ps = get_process_state(_process);
+        bool do_run;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            do_run = has_work(ps);
+            _process_running = do_run;
         }
         // Somebody told me that his name was Bill
         if (do_run) run();
@@ -1120,10 +1154,16 @@ struct shared_process
             task_done();
     }
 
+    auto defer() -> bool {
+        std::unique_lock<std::mutex> lock(_process_mutex);
+        _process_deferred = _process_broadcasting;
+        return _process_deferred;
+    }
+
     void run() {
         _executor([_p = make_weak_ptr(this->shared_from_this())]() noexcept {
             auto p = _p.lock();
-            if (p) p->template step<T>();
+            if (p && !p->defer()) p->template step<T>();
         });
     }
 
@@ -1134,24 +1174,23 @@ struct shared_process
         */
 
         std::size_t n;
-        bool suspend_process;
         {
             std::unique_lock<std::mutex> lock(_downstream_mutex);
             n = _downstream.size();
-            suspend_process = _downstream.minimum_free_buffer() <= 1;
         }
 
+        const auto ps = get_process_state(_process);
+        const bool has_room = has_room_for(2); // for this value and the next
+        bool do_run;
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (suspend_process) {
-                /*
-                    Suspend for however many downstream processes we have + 1 for this process -
-                   that ensures that we are not kicked to run while still broadcasting.
-                */
-                _process_suspend_count = n + 1;
-            } else
-                _process_suspend_count = 1;
+            _process_broadcasting = true;
+            do_run = has_room && has_work(ps);
         }
+
+        // If this runs before the broadcast is complete then it is deferred
+        if (do_run) run();
+
         /*
             There is no lock on _downstream here. We only ever append to this deque so the first
             n elements are good.
@@ -1159,8 +1198,19 @@ struct shared_process
 
         _downstream.send(n, std::forward<A>(args)...);
 
-        clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
-                         // immediately by 1
+        bool is_deferred;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            _process_broadcasting = false;
+            is_deferred = std::exchange(_process_deferred, false);
+            _process_suspended = !do_run;
+            ++_process_suspend_id;
+        }
+
+        if (!do_run)
+            clear_to_send(); // resume this process right away if there is room downstream
+        else if (is_deferred)
+            run();
     }
 
     void map(sender<result_t> f) override {
@@ -1563,6 +1613,9 @@ class sender<T, enable_if_copyable<T>> {
 
     friend struct detail::channel_combiner;
 
+    template <typename R, typename Enabled>
+    friend struct detail::downstream;
+
     sender(ptr_t p) : _p(std::move(p)) {}
 
 public:
@@ -1630,6 +1683,9 @@ class sender<T, enable_if_not_copyable<T>> {
 
     friend struct detail::channel_combiner;
 
+    template <typename R, typename Enabled>
+    friend struct detail::downstream;
+
     sender(ptr_t p) : _p(std::move(p)) {}
 
 public:
-- 
2.43.0


From faf2f3f7c37bae6305a7ea16da4eb03e23bbeaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 13/27] fix: a process is closed once and may yield any number
 of values before it ends

close was called every time the queue ran dry, and a process that yielded in
response to the real close never ended, so nothing downstream did.
---
 include/stlab/concurrency/channel.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index c0e8cac..350b8d5 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -820,6 +820,11 @@ struct shared_process
 
     auto executor() const -> executor_t override { return _executor; }
 
+    auto is_final() -> bool {
+        std::unique_lock<std::mutex> lock(_process_mutex);
+        return _process_final;
+    }
+
     void task_done() {
         bool do_run;
         bool do_final;
@@ -854,14 +859,15 @@ struct shared_process
 
     // requires that _process_mutex is locked
     [[nodiscard]] auto has_work(const process_state_scheduled& ps) const -> bool {
-        return ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
+        return ps.first == process_state::yield || !_queue.empty() || _process_close_queue ||
+               _process_final;
     }
 
     void clear_to_send() override {
         std::size_t suspend_id;
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final || !_process_suspended) return;
+            if (!_process_suspended) return;
             suspend_id = _process_suspend_id;
         }
 
@@ -893,7 +899,7 @@ struct shared_process
         std::unique_lock<std::mutex> lock(_process_mutex);
         if (_queue.empty()) {
             std::swap(do_close, _process_close_queue);
-            _process_final = do_close; // unravel after any yield
+            _process_final = _process_final || do_close; // unravel after any yield
         } else {
             message = std::move(_queue.front());
             _queue.pop_front();
@@ -927,8 +933,6 @@ struct shared_process
                     do_close = true;
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
-        } else {
-            do_close = true;
         }
 
         if (do_close) process_close(_process);
@@ -1069,12 +1073,13 @@ struct shared_process
             /*
                 We are in an await state and the queue is empty.
 
-                If we await forever then task_done() leaving us in an await state.
+                If we await forever, or nothing more is coming, then task_done() leaving us in an
+                await state.
                 else if we await with an expired timeout then go ahead and yield now.
                 else schedule a timeout when we will yield if not canceled by intervening await.
             */
-            else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) ==
-                     std::chrono::nanoseconds::max()) {
+            else if (is_final() || std::chrono::duration_cast<std::chrono::nanoseconds>(duration) ==
+                                       std::chrono::nanoseconds::max()) {
                 task_done();
             } else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) <=
                        std::chrono::nanoseconds::min()) {
-- 
2.43.0


From 538fb3cab56195fa0049af215389660f34bd65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 14/27] fix: a function process passes an error on instead of
 stopping for good

---
 include/stlab/concurrency/channel.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 350b8d5..a7da797 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1132,9 +1132,7 @@ struct shared_process
         using queue_t = typename Q::value_type;
         std::optional<queue_t> message;
         std::array<bool, sizeof...(Args)> do_cts;
-        bool do_close = false;
-
-        std::tie(message, do_cts, do_close) = pop_from_queue();
+        std::tie(message, do_cts, std::ignore) = pop_from_queue();
 
         std::size_t i = 0;
         tuple_for_each(_upstream, [do_cts, &i](auto& u) {
@@ -1145,7 +1143,7 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                do_close = true;
+                broadcast(std::move(*error)); // the next process gets the error
             } else {
                 try {
                     broadcast(
-- 
2.43.0


From 9c71ed5da0a29628b7bd66a4c6301772e6418d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 15/27] fix: assigning over a sender or receiver releases what
 it referred to

Copying a ready receiver also added a receiver nobody would ever set ready.
---
 include/stlab/concurrency/channel.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index a7da797..0c81ae5 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1529,7 +1529,7 @@ public:
     }
 
     receiver(const receiver& x) : _p(x._p), _ready(x._ready) {
-        if (_p) _p->add_receiver();
+        if (!_ready && _p) _p->add_receiver();
     }
 
     receiver(receiver&&) noexcept = default;
@@ -1540,14 +1540,20 @@ public:
         return *this = receiver(x);
     }
 
-    auto operator=(receiver&& x) noexcept -> receiver& = default;
+    auto operator=(receiver&& x) noexcept -> receiver& {
+        receiver(std::move(x)).swap(*this);
+        return *this;
+    }
 
     void set_ready() {
         if (!_ready && _p) _p->remove_receiver();
         _ready = true;
     }
 
-    void swap(receiver& x) noexcept { std::swap(*this, x); }
+    void swap(receiver& x) noexcept {
+        std::swap(_p, x._p);
+        std::swap(_ready, x._ready);
+    }
 
     inline friend void swap(receiver& x, receiver& y) noexcept { x.swap(y); }
     inline friend auto operator==(const receiver& x, const receiver& y) -> bool {
@@ -1641,9 +1647,12 @@ public:
         return *this = sender(x);
     }
 
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender(std::move(x)).swap(*this);
+        return *this;
+    }
 
-    void swap(sender& x) noexcept { std::swap(*this, x); }
+    void swap(sender& x) noexcept { _p.swap(x._p); }
 
     inline friend void swap(sender& x, sender& y) noexcept { x.swap(y); }
 
@@ -1702,9 +1711,12 @@ public:
     sender(const sender& x) = delete;
     sender(sender&&) noexcept = default;
     auto operator=(const sender& x) -> sender& = delete;
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender(std::move(x)).swap(*this);
+        return *this;
+    }
 
-    void swap(sender& x) noexcept { std::swap(*this, x); }
+    void swap(sender& x) noexcept { _p.swap(x._p); }
 
     inline friend void swap(sender& x, sender& y) noexcept { x.swap(y); }
 
-- 
2.43.0


From 3000194ec9b667b11b835459a51544fc5beeadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 16/27] fix: an error reaches set_error of a process attached
 by reference

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 0c81ae5..0e3cf86 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -927,7 +927,7 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                if (has_set_process_error_v<T>)
+                if (has_set_process_error_v<unwrap_reference_t<T>>)
                     set_process_error(*_process, std::move(*error));
                 else
                     do_close = true;
-- 
2.43.0


From 3357a4fe1617a279cc35da562f73a189fff50ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 17/27] fix: return the result of await_for from
 blocking_get_for

---
 include/stlab/concurrency/await.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 8780d03..7aba406 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -152,7 +152,7 @@ auto blocking_get(future<T> x) -> T {
 template <class T>
 [[deprecated("Use await_for instead.")]]
 auto blocking_get_for(future<T> x, const std::chrono::nanoseconds& timeout) -> future<T> {
-    await_for(std::move(x), timeout);
+    return await_for(std::move(x), timeout);
 }
 
 template <class T>
-- 
2.43.0


From aeda343d9ff89bbd3133213924f4b3a07f966102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 18/27] fix: synchronize with former owners before moving a
 result out of a future

---
 include/stlab/concurrency/future.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 37df149..1220922 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -219,7 +219,10 @@ struct result_of_when_any_t {
 
 template <class T>
 auto unique_usage(const std::shared_ptr<T>& p) -> bool {
-    return p.use_count() == 1;
+    if (p.use_count() != 1) return false;
+    // use_count() does not synchronize; order the accesses of the owners that are gone before ours.
+    std::atomic_thread_fence(std::memory_order_acquire);
+    return true;
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 35e761b2fe0f374b878141b458c9ca60f3ba61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 19/27] fix: the pool ends cleanly while tasks wait

join() read the thread vector while a waiting task could add a thread to it,
and a thread woken to run an awaited task could end without looking for it.
---
 .../stlab/concurrency/default_executor.hpp    | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 351b622..4a72441 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -200,21 +200,20 @@ public:
     bool wake() {
         {
             lock_t lock{_mutex, std::try_to_lock};
-            if (!lock || !_waiting) return false;
+            if (!lock || !_waiting || _done) return false;
             _waiting = false;
         }
         _ready.notify_one();
         return true;
     }
 
-    // Will wait until `wake()` or `done()` returns true if done
+    // Will wait until `wake()` or `done()` returns true if done, a woken thread must look for tasks
     bool wait() {
         lock_t lock{_mutex};
         _waiting = true;
         while (_waiting && !_done)
             _ready.wait(lock);
-        _waiting = false;
-        return _done;
+        return std::exchange(_waiting, false);
     }
 };
 
@@ -265,7 +264,7 @@ public:
     bool wake() {
         {
             lock_t lock{_mutex, std::try_to_lock};
-            if (!lock || !_waiting) return false;
+            if (!lock || !_waiting || _done) return false;
             _waiting = false; // triggers wake
         }
         _ready.notify_one();
@@ -277,8 +276,8 @@ public:
         _waiting = true;
         while (_q.empty() && !_done && _waiting)
             _ready.wait(lock);
-        _waiting = false;
-        if (_q.empty()) return {_done, nullptr};
+        const bool woken = !std::exchange(_waiting, false);
+        if (_q.empty()) return {_done && !woken, nullptr};
         return {false, pop_not_empty()};
     }
 
@@ -384,8 +383,16 @@ public:
             e.done();
         for (auto& e : _waiters)
             e.done();
-        for (auto& e : _threads)
-            e.join();
+        // A task that waits can add a thread until the last thread has ended.
+        for (std::size_t n = 0;; ++n) {
+            std::thread t;
+            {
+                lock_t lock{_mutex};
+                if (n == _threads.size()) break;
+                t = std::move(_threads[n]);
+            }
+            t.join();
+        }
 
         _q.clear();
     }
-- 
2.43.0


From 8759ae8afa62f80ce59c5365a3f1200341d08d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 20/27] fix: the pool does not miss a task while its threads
 wait

A thread gave up on a queue another thread held the lock of, a wake was lost
between a thread's last look for tasks and its wait, and nobody was woken for a
task submitted to the queue of a thread that waits: awaited tasks did not run.
---
 include/stlab/concurrency/await.hpp           |  2 +-
 .../stlab/concurrency/default_executor.hpp    | 88 +++++++++++++------
 2 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 7aba406..5063dc2 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -40,7 +40,7 @@ inline namespace STLAB_VERSION_NAMESPACE() {
 template <class F>
 auto invoke_waiting(F&& f) {
 #if STLAB_TASK_SYSTEM(PORTABLE)
-    if (!detail::pts().wake()) detail::pts().add_thread();
+    detail::priority_task_system::waiting guard{detail::pts()};
 #endif
 
     return std::forward<F>(f)();
diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 4a72441..35160fd 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -199,8 +199,8 @@ public:
     // If wait() is waiting, wake and return true, otherwise return false
     bool wake() {
         {
-            lock_t lock{_mutex, std::try_to_lock};
-            if (!lock || !_waiting || _done) return false;
+            lock_t lock{_mutex};
+            if (!_waiting || _done) return false;
             _waiting = false;
         }
         _ready.notify_one();
@@ -208,12 +208,13 @@ public:
     }
 
     // Will wait until `wake()` or `done()` returns true if done, a woken thread must look for tasks
-    bool wait() {
+    // or if `epoch` is no longer the value taken before it looked last.
+    bool wait(const std::atomic<std::size_t>& epoch, std::size_t last) {
         lock_t lock{_mutex};
         _waiting = true;
-        while (_waiting && !_done)
+        while (_waiting && !_done && epoch == last)
             _ready.wait(lock);
-        return std::exchange(_waiting, false);
+        return std::exchange(_waiting, false) && epoch == last;
     }
 };
 
@@ -260,23 +261,31 @@ public:
         return pop_not_empty();
     }
 
+    // As `try_pop()`, but does not give up if another thread holds the lock.
+    auto pop_now() -> task<void() noexcept> {
+        lock_t lock{_mutex};
+        if (_q.empty()) return nullptr;
+        return pop_not_empty();
+    }
+
     // If waiting in `pop()`, wakes and returns true. Otherwise returns false.
     bool wake() {
         {
-            lock_t lock{_mutex, std::try_to_lock};
-            if (!lock || !_waiting || _done) return false;
+            lock_t lock{_mutex};
+            if (!_waiting || _done) return false;
             _waiting = false; // triggers wake
         }
         _ready.notify_one();
         return true;
     }
 
-    auto pop() -> std::pair<bool, task<void() noexcept>> {
+    auto pop(const std::atomic<std::size_t>& epoch, std::size_t last)
+        -> std::pair<bool, task<void() noexcept>> {
         lock_t lock{_mutex};
         _waiting = true;
-        while (_q.empty() && !_done && _waiting)
+        while (_q.empty() && !_done && _waiting && epoch == last)
             _ready.wait(lock);
-        const bool woken = !std::exchange(_waiting, false);
+        const bool woken = !std::exchange(_waiting, false) || epoch != last;
         if (_q.empty()) return {_done && !woken, nullptr};
         return {false, pop_not_empty()};
     }
@@ -342,17 +351,30 @@ class priority_task_system {
     std::vector<std::thread> _threads;
     std::vector<waiter> _waiters{_thread_limit - _count};
 
+    // Number of threads that wait in `invoke_waiting()`, the tasks in their queue are left to others.
+    std::atomic<std::size_t> _blocked{0};
+    // Changed by `wake()`, for a thread that has looked for tasks but does not wait yet.
+    std::atomic<std::size_t> _epoch{0};
+
+    auto find_task(std::size_t i) -> task<void() noexcept> {
+        task<void() noexcept> f;
+        for (unsigned n = 0; n != _count && !f; ++n) {
+            f = _q[(i + n) % _count].try_pop();
+        }
+        for (unsigned n = 0; n != _count && !f; ++n) {
+            f = _q[(i + n) % _count].pop_now();
+        }
+        return f;
+    }
+
     void run(unsigned i) {
         stlab::set_current_thread_name("cc.stlab.default_executor");
         while (true) {
-            task<void() noexcept> f;
-
-            for (unsigned n = 0; n != _count && !f; ++n) {
-                f = _q[(i + n) % _count].try_pop();
-            }
+            const std::size_t last = _epoch;
+            auto f = find_task(i);
             if (!f) {
                 bool done;
-                std::tie(done, f) = _q[i].pop();
+                std::tie(done, f) = _q[i].pop(_epoch, last);
                 if (done) break;
             }
             if (f) f(); // we can wake with no task.
@@ -406,13 +428,29 @@ public:
         static_assert(P < 3, "More than 3 priorities are not known!");
         auto i = _index++;
 
-        for (unsigned n = 0; n != _count; ++n) {
-            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P)) return;
+        bool pushed = false;
+        for (unsigned n = 0; n != _count && !pushed; ++n) {
+            pushed = _q[(i + n) % _count].try_push(std::forward<F>(f), P);
         }
 
-        _q[i % _count].push(std::forward<F>(f), P);
+        if (!pushed) _q[i % _count].push(std::forward<F>(f), P);
+        if (_blocked != 0) wake();
     }
 
+    // For the time the calling thread waits
+    class waiting {
+        priority_task_system& _pool;
+
+    public:
+        explicit waiting(priority_task_system& pool) : _pool{pool} {
+            ++_pool._blocked;
+            if (!_pool.wake()) _pool.add_thread();
+        }
+        waiting(const waiting&) = delete;
+        waiting& operator=(const waiting&) = delete;
+        ~waiting() { --_pool._blocked; }
+    };
+
     void add_thread() {
         lock_t lock{_mutex};
         if (_threads.size() == _thread_limit) return; // log with cerr
@@ -420,23 +458,19 @@ public:
             stlab::set_current_thread_name("cc.stlab.default_executor.expansion");
 
             while (true) {
-                task<void() noexcept> f;
-
-                for (unsigned n = 0; n != _count && !f; ++n) {
-                    f = _q[(i + n) % _count].try_pop();
-                }
-
-                if (f) {
+                const std::size_t last = _epoch;
+                if (auto f = find_task(i)) {
                     f(); // we can wake with no task.
                     continue;
                 }
-                if (_waiters[i - _count].wait()) break;
+                if (_waiters[i - _count].wait(_epoch, last)) break;
             };
         });
     }
 
     // returns true if a thread was woken
     bool wake() {
+        ++_epoch;
         for (auto& e : _q) {
             if (e.wake()) return true;
         }
-- 
2.43.0


From 0e2ab92178157303da4b7990edf1acae9745b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:34 +0000
Subject: [PATCH 21/27] fix: a delayed executor can be used more than once

Each use moved the executor out of the function execute_at() returned.
---
 include/stlab/concurrency/executor_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/executor_base.hpp b/include/stlab/concurrency/executor_base.hpp
index 76410c2..76299a9 100644
--- a/include/stlab/concurrency/executor_base.hpp
+++ b/include/stlab/concurrency/executor_base.hpp
@@ -36,7 +36,7 @@ auto execute_at(std::chrono::duration<Rep, Per> duration, executor_t executor) -
     return [_duration = std::move(duration), _executor = std::move(executor)](auto f) mutable {
         if (_duration != std::chrono::duration<Rep, Per>{})
             system_timer(_duration,
-                         [_f = std::move(f), _executor = std::move(_executor)]() mutable noexcept {
+                         [_f = std::move(f), _executor = _executor]() mutable noexcept {
                              _executor(std::move(_f));
                          });
         else
-- 
2.43.0


From 9b52c3bcabb774822beb6d4c2ba9a107b3e41c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:39 +0000
Subject: [PATCH 22/27] fix: a timeout resumes a process only while it still
 awaits

A timeout that was overtaken by a value still fired if the process was
awaiting again, and every value that arrived while a timeout was pending
scheduled another run of the process.
---
 include/stlab/concurrency/channel.hpp | 105 ++++++++++----------------
 1 file changed, 41 insertions(+), 64 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 0e3cf86..2c043f5 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -616,8 +616,9 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
-            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
-                                                          _shared_process._timeout_function_active);
+            do_run = !_shared_process._receiver_count &&
+                     (!_shared_process._process_running ||
+                      std::exchange(_shared_process._timeout_function_active, false));
 
             _shared_process._process_running = _shared_process._process_running || do_run;
         }
@@ -756,8 +757,13 @@ struct shared_process
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
 
-    std::mutex _timeout_function_control;
-    std::atomic_bool _timeout_function_active{false};
+    /*
+        While a process awaits with a timeout either its timeout or the next value resumes it,
+        whichever resets _timeout_function_active first. _timeout_function_id tells the timeouts
+        apart. Both require that _process_mutex is locked.
+    */
+    bool _timeout_function_active = false;
+    std::size_t _timeout_function_id = 0;
 
     std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
@@ -948,15 +954,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     !has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1000,27 +997,7 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                schedule_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
@@ -1030,15 +1007,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1085,33 +1053,42 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                schedule_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
         }
     }
 
+    // Resume this process after the duration unless a value arrives in the meantime.
+    template <typename D>
+    void schedule_timeout(const D& duration) {
+        std::size_t timeout_id;
+        bool do_run;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            do_run = !_queue.empty() || _process_close_queue;
+            _timeout_function_active = !do_run;
+            timeout_id = ++_timeout_function_id;
+        }
+        if (do_run) {
+            run();
+            return;
+        }
+        execute_at(duration, _executor)(
+            [_weak_this = make_weak_ptr(this->shared_from_this()), timeout_id]() noexcept {
+                auto _this = _weak_this.lock();
+                // It may be that the complete channel is gone in the meanwhile
+                if (_this && _this->resume_timeout(timeout_id)) _this->try_broadcast();
+            });
+    }
+
+    auto resume_timeout(std::size_t timeout_id) -> bool {
+        std::unique_lock<std::mutex> lock(_process_mutex);
+        return _timeout_function_id == timeout_id &&
+               std::exchange(_timeout_function_active, false);
+    }
+
     void try_broadcast() {
         try {
             if (_process) broadcast(unwrap(*_process).yield());
-- 
2.43.0


From ab7818af2f574bb3171e0139e0c76ca8fcbb16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 23/27] fix: the end of a channel is propagated outside of the
 lock of its process

A process on the immediate executor that had a value left when its input
ended called back into the process which held the lock.
---
 include/stlab/concurrency/channel.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 2c043f5..b16291a 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -846,8 +846,12 @@ struct shared_process
         // I met him on a Monday and my heart stood still
         if (do_run) run();
         if (do_final) {
-            std::unique_lock<std::mutex> lock(_downstream_mutex);
-            _downstream.clear(); // This will propagate the close to anything downstream
+            decltype(_downstream) closed; // released after the lock
+            {
+                std::unique_lock<std::mutex> lock(_downstream_mutex);
+                std::swap(closed, _downstream);
+            }
+            closed.clear(); // This will propagate the close to anything downstream
             _process = std::nullopt;
         }
     }
-- 
2.43.0


From d79fa3e1dc3b68b8684b2a3c8d57ea1a03747331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:58 +0000
Subject: [PATCH 24/27] fix: a filtered range can be traversed backwards from
 its end

---
 include/stlab/forest.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index d7245cb..7c303b0 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -243,6 +243,10 @@ struct filter_fullorder_iterator {
     filter_fullorder_iterator(I f, I l, P p) :
         _x(skip_forward(f, l, p)), _inside(true), _first(f), _last(l), _predicate(p) {}
 
+    // The position x of the range [f, l), which passes the filter or is l.
+    filter_fullorder_iterator(I x, I f, I l, P p) :
+        _x(x), _inside(true), _first(f), _last(l), _predicate(p) {}
+
     filter_fullorder_iterator(I f, I l) :
         _x(skip_forward(f, l, P())), _inside(true), _first(f), _last(l) {}
 
@@ -1177,7 +1181,7 @@ auto filter_fullorder_range(R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 template <class R, typename P> // R models FullorderRange
@@ -1185,7 +1189,7 @@ auto filter_fullorder_range(const R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::const_iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 6560d7b4baeaca8bee3ea8be91e22f25d0d907f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:45 +0000
Subject: [PATCH 25/27] fix: the edge set on a reverse full-order iterator
 counts in comparisons and base()

---
 include/stlab/forest.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 7c303b0..798d44c 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -365,7 +365,11 @@ struct reverse_fullorder_iterator {
     reverse_fullorder_iterator(const reverse_fullorder_iterator<U>& x) :
         _base(--x.base()), _edge(pivot(_base.edge())) {}
 
-    [[nodiscard]] auto base() const -> iterator_type { return std::next(_base); }
+    [[nodiscard]] auto base() const -> iterator_type {
+        auto result{_base};
+        result.edge() = pivot(_edge);
+        return std::next(result);
+    }
 
     [[nodiscard]] auto edge() const -> forest_edge { return _edge; }
     auto edge() -> forest_edge& { return _edge; }
@@ -421,7 +425,7 @@ private:
     [[nodiscard]] auto dereference() const -> reference { return *_base; }
 
     [[nodiscard]] auto equal(const reverse_fullorder_iterator& y) const -> bool {
-        return (_base == y._base) && (_edge == y._edge);
+        return _base.equal_node(y._base) && (_edge == y._edge);
     }
 };
 
-- 
2.43.0


From 0f53a5e446f18b5ee292e2c469efef1da7693a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:01 +0000
Subject: [PATCH 26/27] fix: filter and depth full-order iterators convert to
 their const counterparts

---
 include/stlab/forest.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 798d44c..545e2a2 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -298,6 +298,9 @@ struct filter_fullorder_iterator {
     }
 
 private:
+    template <class, class>
+    friend struct filter_fullorder_iterator;
+
     I _x;
     bool _inside;
     I _first;
@@ -485,6 +488,9 @@ struct depth_fullorder_iterator {
     }
 
 private:
+    template <class>
+    friend struct depth_fullorder_iterator;
+
     I _x;
     difference_type _depth;
 
-- 
2.43.0


From 977a9334f8f65e20d8ba492440f04fdcb122d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:55 +0000
Subject: [PATCH 27/27] fix: a delay or timeout beyond the range of the clock
 expired at once

steady_clock::now() + duration wrapped around for very long durations, as
nanoseconds::max(), so that a task of the system timer ran at once and
await_for returned without waiting.
---
 include/stlab/concurrency/await.hpp        | 8 +++++++-
 include/stlab/concurrency/system_timer.hpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 5063dc2..6fba551 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -108,9 +108,15 @@ struct blocking_get_guarded {
     }
 
     auto wait_for(const std::chrono::nanoseconds& timeout) -> future<T> {
+        using std::chrono::steady_clock;
+        const auto now = steady_clock::now();
+        // A timeout that ends after the last time of the clock must not wrap around.
+        auto until = steady_clock::time_point::max();
+        if (timeout < until - now)
+            until = now + std::chrono::duration_cast<steady_clock::duration>(timeout);
         std::unique_lock<std::mutex> lock{_mutex};
         _timed_out = !invoke_waiting(
-            [&] { return _condition.wait_for(lock, timeout, [&] { return _result.valid(); }); });
+            [&] { return _condition.wait_until(lock, until, [&] { return _result.valid(); }); });
         return _timed_out ? future<T>{} : std::move(_result);
     }
 };
diff --git a/include/stlab/concurrency/system_timer.hpp b/include/stlab/concurrency/system_timer.hpp
index 6fbd757..457b0a3 100644
--- a/include/stlab/concurrency/system_timer.hpp
+++ b/include/stlab/concurrency/system_timer.hpp
@@ -273,8 +273,14 @@ public:
     template <typename F, typename Rep, typename Per = std::ratio<1>>
     auto operator()(std::chrono::duration<Rep, Per> duration, F&& f)
         -> std::enable_if_t<std::is_nothrow_invocable_v<F>> {
+        using namespace std::chrono;
         lock_t lock(_timed_queue_mutex);
-        _timed_queue.emplace_back(std::chrono::steady_clock::now() + duration, std::forward<F>(f));
+        const auto now = steady_clock::now();
+        // A delay that ends after the last time of the clock must not wrap around.
+        auto when = steady_clock::time_point::max();
+        if (std::chrono::duration<double>(duration) < std::chrono::duration<double>(when - now))
+            when = now + duration;
+        _timed_queue.emplace_back(when, std::forward<F>(f));
         std::push_heap(std::begin(_timed_queue), std::end(_timed_queue), greater_first());
         _condition.notify_one();
     }
-- 
2.43.0

