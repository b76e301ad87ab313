From a273a6a01765f2ee185f65b4457428d993d9fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 01/42] hook: HXLIBS_STATIC_ANALYSIS drops a thenTry constraint
 clang-18 cannot match out of line

---
 include/HXLibs/container/FutureResult.hpp | 2 ++
 include/HXLibs/container/ThreadPool.hpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index 4d1413c..0988d79 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -191,10 +191,12 @@ public:
             - 因为: 如果允许, 则变成: FutureResult<FutureResult<U>>, 此时可能会导致死锁!
      */
     template <typename Func, typename Res = std::invoke_result_t<Func, ArgTryType>>
+#ifndef HXLIBS_STATIC_ANALYSIS // clang-18 前端无法匹配类外定义的约束
         requires (requires (Func func, FutureResult<T>::ArgTryType t) {
             // https://github.com/HengXin666/HXLibs/issues/13
             { func(std::move(t)) } -> std::same_as<Res>;
         })
+#endif // !HXLIBS_STATIC_ANALYSIS
     std::conditional_t<
         IsFutureResultType<Res>,
         void,
diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index efd8c50..aff9ad1 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -332,9 +332,11 @@ private:
 
 template <typename T>
 template <typename Func, typename Res>
+#ifndef HXLIBS_STATIC_ANALYSIS
     requires (requires (Func func, FutureResult<T>::ArgTryType t) {
             { func(std::move(t)) } -> std::same_as<Res>;
         })
+#endif // !HXLIBS_STATIC_ANALYSIS
 std::conditional_t<
     IsFutureResultType<Res>, 
     void, 
-- 
2.43.0


From 3e3618c7ba2b4bfc988766aeb6fb6dc3c5020a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 02/42] fix: void ThreadPool task reported ready before it ran,
 losing its exception

---
 include/HXLibs/container/ThreadPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index aff9ad1..7f6c151 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -133,8 +133,8 @@ struct ThreadPool {
         ]() mutable {
             try {
                 if constexpr (std::is_void_v<Res>) {
-                    ans->setData(NonVoidType<>{});
                     moveApply(std::move(func), std::move(argWap));
+                    ans->setData(NonVoidType<>{});
                 } else {
                     ans->setData(moveApply(std::move(func), std::move(argWap)));
                 }
-- 
2.43.0


From b2fc6dce60c415768cd4eef939fffdb459a2fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 03/42] fix: thenTry rethrew the upstream exception instead of
 the one the callback returned in its Try

---
 include/HXLibs/container/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 7f6c151..521a1b2 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -401,7 +401,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            std::rethrow_exception(funcRes.get().exception());
                         }
                     } else {            
                         // func 返回值是任意类型
@@ -420,7 +420,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            std::rethrow_exception(funcRes.get().exception());
                         }
                     } else {
                         // func 返回值是任意类型
-- 
2.43.0


From ba5a1ec6044e52378bb2f237f77db585adc66e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 04/42] fix: ThreadPool changed the state its workers wait on
 without the wait mutex (lost wakeup)

---
 include/HXLibs/container/ThreadPool.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 521a1b2..8ed2385 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -142,7 +142,10 @@ struct ThreadPool {
                 ans->unhandledException();
             }
         };
-        _taskQueue.emplace(std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb)));
+        {
+            std::lock_guard _{_mtx};
+            _taskQueue.emplace(std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb)));
+        }
         _cv.notify_one();
         return res;
     }
@@ -177,7 +180,10 @@ struct ThreadPool {
     ThreadPool& operator=(ThreadPool&&) = delete;
 
     ~ThreadPool() noexcept {
-        _isRun = false;
+        {
+            std::lock_guard _{_mtx};
+            _isRun = false;
+        }
         if (_opThread.joinable()) {
             _opThread.join();
         }
@@ -216,7 +222,10 @@ private:
                     makeWorker(static_cast<std::size_t>(add));
                 } else {
                     add = -add;
-                    _delCnt = static_cast<uint32_t>(add);
+                    {
+                        std::lock_guard _{_mtx};
+                        _delCnt = static_cast<uint32_t>(add);
+                    }
                     for (int i = 0; i < add; ++i) {
                         _cv.notify_one();
                     }
-- 
2.43.0


From b892863f6ed9eb8b070d1e6e0078aafee3afd932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 05/42] fix: Uninitialized::set leaked the value it replaced
 and move() never destroyed the moved-from value

---
 include/HXLibs/container/Uninitialized.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/container/Uninitialized.hpp b/include/HXLibs/container/Uninitialized.hpp
index a571a6d..3b9976a 100644
--- a/include/HXLibs/container/Uninitialized.hpp
+++ b/include/HXLibs/container/Uninitialized.hpp
@@ -34,7 +34,7 @@ struct Uninitialized {
     Uninitialized& operator=(Uninitialized const&) = delete;
     
     Uninitialized(Uninitialized&& that) noexcept 
-        : _available(that._available)
+        : _available(false)
     {
         if (that._available) {
             set(that.move());
@@ -57,8 +57,9 @@ struct Uninitialized {
     }
 
     T move() noexcept {
-        _available = false;
-        return std::move(_data);
+        T res(std::move(_data));
+        del();
+        return res;
     }
 
     T& get() noexcept {
@@ -71,6 +72,7 @@ struct Uninitialized {
 
     template <typename... Ts>
     void set(Ts&&... args) {
+        del();
         new (std::addressof(_data)) T(std::forward<Ts>(args)...);
         _available = true;
     }
-- 
2.43.0


From ad12166a9b93120004a24a4c78df7d83073dcd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 06/42] fix: variant emplace marked the alternative alive
 before its constructor succeeded

---
 include/HXLibs/container/UninitializedNonVoidVariant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/UninitializedNonVoidVariant.hpp b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
index 6e7233a..b538f84 100644
--- a/include/HXLibs/container/UninitializedNonVoidVariant.hpp
+++ b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
@@ -333,8 +333,8 @@ struct UninitializedNonVoidVariant {
             requires (Idx < N)
     constexpr NonVT& emplace(Args&&... args) noexcept(std::is_nothrow_constructible_v<NonVT, Args...>) {
         del();
-        _idx = Idx;
         new (std::addressof(get<Idx, exception::ExceptionMode::Nothrow>())) NonVT(std::forward<Args>(args)...);
+        _idx = Idx;
         return get<Idx, exception::ExceptionMode::Nothrow>();
     }
 
@@ -343,8 +343,8 @@ struct UninitializedNonVoidVariant {
             requires (Idx < N)
     constexpr T& emplace(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         del();
-        _idx = Idx;
         new (std::addressof(get<Idx, exception::ExceptionMode::Nothrow>())) T(std::forward<Args>(args)...);
+        _idx = Idx;
         return get<Idx, exception::ExceptionMode::Nothrow>();
     }
 
-- 
2.43.0


From 5aaf4e0e02b31fd58d0579307deb76cfcfa2b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 07/42] fix: CVector::end() pointed one past the end position

---
 include/HXLibs/container/CVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/CVector.hpp b/include/HXLibs/container/CVector.hpp
index 0a914a1..e0fec92 100644
--- a/include/HXLibs/container/CVector.hpp
+++ b/include/HXLibs/container/CVector.hpp
@@ -88,8 +88,8 @@ public:
     constexpr iterator begin() { return _data; }
     constexpr const_iterator begin() const { return _data; }
 
-    constexpr iterator end() { return _data + _dIdx + 1; }
-    constexpr const_iterator end() const { return _data + _dIdx + 1; }
+    constexpr iterator end() { return _data + _dIdx; }
+    constexpr const_iterator end() const { return _data + _dIdx; }
 
     // 修改
     constexpr void push_back(value_type const& t) { _data[_dIdx++] = t; }
-- 
2.43.0


From b0dd303a9bb924cfc3adffe718c6c7874dbd421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 08/42] fix: CHashMap::at indexed with the not-found marker for
 an unknown key

---
 include/HXLibs/container/CHashMap.hpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/container/CHashMap.hpp b/include/HXLibs/container/CHashMap.hpp
index c22e386..9f0f69a 100644
--- a/include/HXLibs/container/CHashMap.hpp
+++ b/include/HXLibs/container/CHashMap.hpp
@@ -87,18 +87,16 @@ public:
     // 查找与访问
     template <typename K>
     constexpr mapped_type const& at(K const& key) const {
-        auto const& kv = lookup(key);
-        if (_keyEqual(meta::getKey(kv), key)) [[likely]] {
-            return kv.second;
+        if (auto it = find(key); it != end()) [[likely]] {
+            return it->second;
         }
         throw std::out_of_range("unknown key");
     }
 
     template <typename K>
     constexpr mapped_type& at(K const& key) {
-        auto& kv = lookup(key);
-        if (_keyEqual(meta::getKey(kv), key)) [[likely]] {
-            return kv.second;
+        if (auto it = find(key); it != end()) [[likely]] {
+            return it->second;
         }
         throw std::out_of_range("unknown key");
     }
@@ -132,16 +130,6 @@ public:
     static constexpr bool empty() noexcept { return !N; }
     static constexpr size_type size() noexcept { return N; }
     static constexpr size_type max_size() noexcept { return N; }
-private:
-    template <typename K>
-    constexpr value_type const& lookup(K const& key) const noexcept {
-        return _data[_pmhTable.lookup(key, _hash)];
-    }
-
-    template <typename K>
-    constexpr value_type& lookup(K const& key) noexcept {
-        return _data[_pmhTable.lookup(key, _hash)];
-    }
 };
 
 /**
-- 
2.43.0


From 3cf789ab074f950415808f61bc050b743e906e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 09/42] fix: awaiting a thread-pool future dispatched before
 the awaiting coroutine was recorded

---
 include/HXLibs/container/FutureResult.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index 0988d79..817f01e 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -107,9 +107,17 @@ private:
 
     struct _hx_Await {
         _hx_Await(FutureResult&& self)
-            : _res{}
+            : _self{std::move(self)}
+            , _res{}
             , _coroutine{}
-        {
+        {}
+
+        _hx_Await& operator=(_hx_Await&&) noexcept = delete;
+
+        constexpr bool await_ready() const noexcept { return false; }
+        void await_suspend(std::coroutine_handle<> coroutine) {
+            _coroutine = coroutine; // 必须先于派发: 派发后, 工作线程随时可能恢复协程
+            auto self = std::move(_self);
             auto* loop = self._coEventLoop.get();
             std::move(self).thenTry([this, raii = loop->makeTheradTask(), _loop = loop](auto t) mutable {
                 _res.set(std::move(t));
@@ -118,13 +126,6 @@ private:
                 _loop->makeNopAioTask();
             });
         }
-
-        _hx_Await& operator=(_hx_Await&&) noexcept = delete;
-
-        constexpr bool await_ready() const noexcept { return false; }
-        constexpr void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
-            _coroutine = coroutine;
-        }
         constexpr auto await_resume() const {
             auto t = _res.move();
             if (!t) [[unlikely]] {
@@ -133,6 +134,7 @@ private:
             return t.move();
         }
     private:
+        FutureResult _self;
         mutable container::Uninitialized<FutureResult<T>::ArgTryType> _res;
         mutable std::coroutine_handle<> _coroutine;
     };
-- 
2.43.0


From f2ab40dbc56b97815ea7e3933a5f15a81cd3f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 10/42] fix: a throwing task wedged SerialExecutor or
 terminated the process instead of reaching its caller

---
 .../coroutine/executor/SerialExecutor.hpp     | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/coroutine/executor/SerialExecutor.hpp b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
index eefe5af..eb6a23b 100644
--- a/include/HXLibs/coroutine/executor/SerialExecutor.hpp
+++ b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
@@ -21,6 +21,7 @@
 #include <queue>
 #include <list>
 #include <memory>
+#include <exception>
 
 #include <HXLibs/coroutine/task/Task.hpp>
 
@@ -65,7 +66,8 @@ class SerialExecutor {
     struct State {
         bool isRun{};
         // 传递引用, 防止其因为析构引发的 段错误
-        std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>>> q;
+        // 异常指针: 任务异常交付给对应等待者的位置 (首个任务没有等待者, 为 nullptr)
+        std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>, std::exception_ptr*>> q;
         // SerialTask 运行队列
         std::list<SerialTask::HandleType> runList;
     };
@@ -79,32 +81,48 @@ class SerialExecutor {
         bool await_suspend(std::coroutine_handle<> co) const noexcept {
             [[maybe_unused]] auto& [isRun, q, _] = *_mtx._runList;
             if (!isRun) {
-                q.push({_task, std::noop_coroutine()});
+                q.push({_task, std::noop_coroutine(), nullptr});
                 return false;
             }
-            q.push({_task, co});
+            q.push({_task, co, &_err});
             return true;
         }
-        constexpr void await_resume() const noexcept {}
+        void await_resume() const {
+            if (_err) [[unlikely]] {
+                std::rethrow_exception(_err);
+            }
+        }
     private:
         SerialExecutor& _mtx;
         coroutine::Task<> const& _task;
+        mutable std::exception_ptr _err{};
     };
 
     coroutine::Task<> start() {
         auto runListPtr = _runList;
         auto& [isRun, q, runList] = *runListPtr;
-        auto [task, co] = std::move(q.front());
+        auto [task, co, errPtr] = std::move(q.front());
         q.pop();
-        co_await task;
+        std::exception_ptr err{};
+        try {
+            co_await task;
+        } catch (...) {
+            err = std::current_exception();
+        }
+        if (errPtr) {
+            *errPtr = std::exchange(err, nullptr);
+        }
         co.resume();
         if (!isRun || q.empty()) {
             isRun = false;
-            co_return;
+        } else {
+            [this]() -> SerialTask {
+                co_await start();
+            }().via(runList).detach();
+        }
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err);
         }
-        [this]() -> SerialTask {
-            co_await start();
-        }().via(runList).detach();
     }
 public:
     /**
-- 
2.43.0


From 42a7244e9d3f89a54237d23eee708ca7a92cea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 11/42] fix: SerialExecutor destroyed the coroutine frames that
 were resuming the code destroying it

---
 .../coroutine/executor/SerialExecutor.hpp     | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/coroutine/executor/SerialExecutor.hpp b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
index eb6a23b..fd55593 100644
--- a/include/HXLibs/coroutine/executor/SerialExecutor.hpp
+++ b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
@@ -44,7 +44,7 @@ class SerialExecutor {
             void return_void() noexcept { }
             void unhandled_exception() noexcept { std::terminate(); }
 
-            std::list<std::coroutine_handle<promise_type>>* _list{};
+            std::shared_ptr<std::list<std::coroutine_handle<promise_type>>> _list{};
             std::list<std::coroutine_handle<promise_type>>::iterator _it;
         };
 
@@ -53,9 +53,9 @@ class SerialExecutor {
         SerialTask(HandleType h) : _handle(h) {}
         SerialTask& operator=(SerialTask&&) = delete;
 
-        SerialTask&& via(std::list<SerialTask::HandleType>& runList) && {
-            _handle.promise()._list = &runList;
-            _handle.promise()._it = runList.insert(runList.end(), _handle);
+        SerialTask&& via(std::shared_ptr<std::list<SerialTask::HandleType>> runList) && {
+            _handle.promise()._it = runList->insert(runList->end(), _handle);
+            _handle.promise()._list = std::move(runList);
             return std::move(*this);
         }
         void detach() && { _handle.resume(); }
@@ -70,6 +70,8 @@ class SerialExecutor {
         std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>, std::exception_ptr*>> q;
         // SerialTask 运行队列
         std::list<SerialTask::HandleType> runList;
+        // 正在恢复等待者的层数; 不为 0 时, runList 中的协程都在调用栈上, 不可销毁
+        std::size_t resuming{};
     };
 
     struct SerialAwaiter {
@@ -79,7 +81,7 @@ class SerialExecutor {
         {}
         constexpr bool await_ready() const noexcept { return false; }
         bool await_suspend(std::coroutine_handle<> co) const noexcept {
-            [[maybe_unused]] auto& [isRun, q, _] = *_mtx._runList;
+            [[maybe_unused]] auto& [isRun, q, _, _resuming] = *_mtx._runList;
             if (!isRun) {
                 q.push({_task, std::noop_coroutine(), nullptr});
                 return false;
@@ -100,7 +102,7 @@ class SerialExecutor {
 
     coroutine::Task<> start() {
         auto runListPtr = _runList;
-        auto& [isRun, q, runList] = *runListPtr;
+        auto& [isRun, q, runList, resuming] = *runListPtr;
         auto [task, co, errPtr] = std::move(q.front());
         q.pop();
         std::exception_ptr err{};
@@ -112,13 +114,15 @@ class SerialExecutor {
         if (errPtr) {
             *errPtr = std::exchange(err, nullptr);
         }
-        co.resume();
+        ++resuming;
+        co.resume(); // 可能会析构 SerialExecutor
+        --resuming;
         if (!isRun || q.empty()) {
             isRun = false;
         } else {
             [this]() -> SerialTask {
                 co_await start();
-            }().via(runList).detach();
+            }().via({runListPtr, &runList}).detach();
         }
         if (err) [[unlikely]] {
             std::rethrow_exception(err);
@@ -142,9 +146,12 @@ public:
      * @brief 清空所有正在等待的串行任务
      */
     void clear() {
-        auto& [isRun, q, runList] = *_runList;
+        auto& [isRun, q, runList, resuming] = *_runList;
         q = {};
         isRun = false;
+        if (resuming) {
+            return; // 它们会自行结束
+        }
         for (auto& co : runList)
             co.destroy();
         runList.clear();
@@ -156,7 +163,7 @@ public:
 private:
     // @todo 需要一个协程的共享智能指针
     const std::shared_ptr<State> _runList = std::make_shared<State>(
-        State{false, {}, {}});
+        State{false, {}, {}, 0});
 };
 
 } // namespace HX::coroutine
-- 
2.43.0


From d71490d28f2f73b7eb462c8653edaa207b736358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 12/42] fix: yielded coroutines waited for every timer and
 starved timers and I/O

---
 include/HXLibs/coroutine/loop/TimerLoop.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/TimerLoop.hpp b/include/HXLibs/coroutine/loop/TimerLoop.hpp
index 853c058..d55d136 100644
--- a/include/HXLibs/coroutine/loop/TimerLoop.hpp
+++ b/include/HXLibs/coroutine/loop/TimerLoop.hpp
@@ -35,19 +35,25 @@ struct TimerLoop {
     TimerLoop& operator=(TimerLoop&&) = delete;
 
     std::optional<std::chrono::system_clock::duration> run() {
+        // 只恢复本轮已经排队的协程; 它们再次 yield 的留到下一轮, 以免饿死定时器和 IO
+        for (auto n = _yieldQueue.size(); n && _yieldQueue.size(); --n) {
+            _yieldQueue.front().resume();
+            _yieldQueue.pop_front();
+        }
         while (_timerTree.size()) {
             auto nowTime = std::chrono::system_clock::now();
             auto it = _timerTree.begin();
             if (it->first <= nowTime) {
                 it->second.resume();
                 _timerTree.erase(it);
+            } else if (_yieldQueue.size()) {
+                break;
             } else {
                 return it->first - nowTime;
             }
         }
-        while (_yieldQueue.size()) {
-            _yieldQueue.front().resume();
-            _yieldQueue.pop_front();
+        if (_yieldQueue.size()) {
+            return std::chrono::system_clock::duration::zero(); // 还有就绪的协程, 不能等待
         }
         return {};
     }
-- 
2.43.0


From 39a833705d3573846b1f88cf3b1736ce7e05816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 13/42] fix: fullyRecv and the HTTPS receive loops spun forever
 once the peer had closed the connection

---
 include/HXLibs/net/socket/IO.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 244d8cd..fee77b7 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -90,6 +90,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"socket close"}; // 对方已经关闭, 再读也是 0
+            }
             buf = buf.subspan(sent);
         }
     }
@@ -317,6 +320,9 @@ public:
             }
             // 继续尝试读取密文
             res = co_await Base::recv(buf);
+            if (res <= 0) [[unlikely]] {
+                co_return res; // 连接断开 (0) 或者出错 (< 0)
+            }
         }
         [[unlikely]] co_return res;
     }
@@ -337,6 +343,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"socket close"}; // 对方已经关闭, 再读也是 0
+            }
             buf = buf.subspan(sent);
         }
     }
@@ -416,6 +425,11 @@ public:
             }
             // 继续尝试读取密文
             res = co_await Base::recvLinkTimeout<Timeout>(buf);
+            if (res.index() == 0
+             && get<0, exception::ExceptionMode::Nothrow>(res) <= 0
+            ) [[unlikely]] {
+                break; // 连接断开 (0) 或者出错 (< 0)
+            }
         }
         co_return res;
     }
-- 
2.43.0


From 983b67594310de13a2eab69d569d8c797fe2d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 14/42] fix: file transfers hid read and send errors, leaving a
 short body on a live connection

---
 include/HXLibs/net/protocol/http/Request.hpp  | 15 +++--
 include/HXLibs/net/protocol/http/Response.hpp | 58 +++++++++++++------
 2 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 8fd3968..1fc6855 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -172,17 +172,22 @@ public:
             buf.resize(utils::FileUtils::kBufMaxSize);
             // 读取文件
             std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
-            _buildToChunkedEncoding<true>(size, sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
-            for (;;) {
+            if (size) [[likely]] {
+                _buildToChunkedEncoding<true>(size, sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
+            } else { // 空文件: 只有结束块
+                _buildToChunkedEncoding<true, true>(0, sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+            }
+            while (size) {
+                size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
                     // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束
                     _buildToChunkedEncoding<false, true>(0, sendBuf);
                     co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                     break;
                 }
-                size = static_cast<std::size_t>(co_await file.read(buf));
                 _buildToChunkedEncoding(size, sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3d92285..cd63f6d 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -386,18 +386,24 @@ public:
         
         utils::AsyncFile file{_io};
         co_await file.open(filePath);
+        std::exception_ptr err;
         try {
             std::vector<char> buf(utils::FileUtils::kBufMaxSize);
             // 读取文件
             std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
-            /*
-                len\r\n
-                内容片段
-            */
-            _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
-            co_await _io.fullySend(_sendBuf);           // 发送
-            co_await _io.fullySend({buf.data(), size}); // 发送文件
-            for (;;) {
+            if (size) [[likely]] {
+                /*
+                    len\r\n
+                    内容片段
+                */
+                _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
+                co_await _io.fullySend(_sendBuf);           // 发送
+                co_await _io.fullySend({buf.data(), size}); // 发送文件
+            } else { // 空文件: 只有结束块
+                _buildToChunkedEncoding<true, true>(0); // 0\r\n\r\n
+                co_await _io.fullySend(_sendBuf);
+            }
+            while (size) {
                 size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
                     /*
@@ -420,9 +426,12 @@ public:
                 co_await _io.fullySend({buf.data(), size});           // 发送文件
             }
         } catch (...) {
-            ; // _io.template send 会抛异常
+            err = std::current_exception(); // _io.template send 会抛异常
         }
         co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err); // 响应体不完整, 不能再复用该连接
+        }
     }
 
 #if defined(__GNUC__) && !defined(__clang__)
@@ -507,6 +516,7 @@ public:
                 
                 utils::AsyncFile file{_io};
                 co_await file.open(filePath);
+                std::exception_ptr err;
                 try {
                     file.setOffset(beginPos);
                     std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
@@ -520,15 +530,18 @@ public:
                             )
                         );
                         if (!size) [[unlikely]] {
-                            break;
+                            throw std::runtime_error{"The file is shorter than promised"};
                         }
                         co_await _io.fullySend({buf.data(), size});
                         remaining -= size;
                     }
                 } catch (...) {
-                    ;
+                    err = std::current_exception();
                 }
                 co_await file.close();
+                if (err) [[unlikely]] {
+                    std::rethrow_exception(err); // 响应体不完整, 不能再复用该连接
+                }
             } else {
                 /*
                     HTTP/1.1 206 Partial Content\r\n
@@ -585,6 +598,7 @@ public:
 
                     utils::AsyncFile file{_io};
                     co_await file.open(filePath);
+                    std::exception_ptr err;
                     try {
                         file.setOffset(beginPos);
                         std::vector<char> buf(utils::FileUtils::kBufMaxSize);
@@ -598,17 +612,20 @@ public:
                                 )
                             );
                             if (!size) [[unlikely]] {
-                                break;
+                                throw std::runtime_error{"The file is shorter than promised"};
                             }
                             co_await _io.fullySend({buf.data(), size});
-                            co_await _io.fullySend(CRLF);
                             remaining -= size;
                         }
+                        co_await _io.fullySend(CRLF); // 每个部分的结尾
                     } catch (...) {
                         // _io.template send 会抛异常
-                        ;
+                        err = std::current_exception();
                     }
                     co_await file.close();
+                    if (err) [[unlikely]] {
+                        std::rethrow_exception(err); // 响应体不完整, 不能再复用该连接
+                    }
                 }
                 co_await _io.fullySend("--BOUNDARY_STRING--\r\n"sv);
             }
@@ -622,24 +639,31 @@ public:
 
             utils::AsyncFile file{_io};
             co_await file.open(filePath);
+            std::exception_ptr err;
             try {
                 std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
                 uint64_t remaining = fileSize;
                 while (remaining > 0) {
                     std::size_t size = static_cast<std::size_t>(
-                        co_await file.read(buf)
+                        co_await file.read(
+                            buf,
+                            static_cast<uint32_t>(std::min(remaining, buf.size()))
+                        )
                     );
                     if (!size) [[unlikely]] {
-                        break;
+                        throw std::runtime_error{"The file is shorter than promised"};
                     }
                     co_await _io.fullySend({buf.data(), size});
                     remaining -= size;
                 }
             } catch (...) {
                 // _io.template send 会抛异常
-                ;
+                err = std::current_exception();
             }
             co_await file.close();
+            if (err) [[unlikely]] {
+                std::rethrow_exception(err); // 响应体不完整, 不能再复用该连接
+            }
         }
     }
 
-- 
2.43.0


From 9cfaf44cdb44703fee8062be0b07c84cf233d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 15/42] fix: Range responses promised bytes past the end,
 mis-parsed suffix ranges and left multipart bodies unframed

---
 include/HXLibs/net/protocol/http/Response.hpp | 132 ++++++++++++------
 1 file changed, 90 insertions(+), 42 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index cd63f6d..9512e28 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -23,6 +23,8 @@
 #include <vector>
 #include <unordered_map>
 #include <optional>
+#include <charconv>
+#include <utility>
 
 #include <HXLibs/net/protocol/http/Http.hpp>
 #include <HXLibs/net/protocol/http/Status.hpp>
@@ -471,7 +473,9 @@ public:
             addHeader("Accept-Ranges", "bytes");
             _buildResponseLineAndHeaders();
             co_await _io.fullySend(_sendBuf);
-        } else if (auto it = headMap.find("range"); it != headMap.end()) {
+        } else if (auto it = headMap.find("range"); it != headMap.end()
+            && it->second.starts_with("bytes="sv) // 不认识的单位, 视为没有 Range
+        ) {
             // 开始[断点续传]传输, 先发一下头
             /*
                 "HTTP/1.1 206 Partial Content\r\n"
@@ -491,24 +495,20 @@ public:
             addHeader("Accept-Ranges", "bytes");
 
             if (rangeNumArr.size() == 1) [[likely]] { // 一般都是请求单个范围
-                auto [begin, end] = utils::StringUtil::splitAtFirst(rangeNumArr.back(), "-"sv);
-                if (begin.empty()) {
-                    begin += '0';
-                }
-                if (end.empty()) {
-                    end = std::to_string(fileSize - 1);
-                }
-                uint64_t beginPos = std::stoull(begin);
-                uint64_t endPos = std::stoull(end);
-                if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
+                auto range = _parseRange(rangeNumArr.back(), fileSize);
+                if (!range) [[unlikely]] {
                     // 范围不合法: 返回416, 表示请求错误
                     setResLine(Status::CODE_416);
+                    addHeader("Content-Range", "bytes */" + fileSizeStr);
+                    addHeader("Content-Length", "0");
                     _buildResponseLineAndHeaders();
                     co_await _io.fullySend(_sendBuf);
                     co_return ;
                 }
+                auto [beginPos, endPos] = *range;
                 uint64_t remaining = endPos - beginPos + 1;
-                addHeader("Content-Range", "bytes " + begin + "-" + end + "/" + fileSizeStr);
+                addHeader("Content-Range", "bytes " + std::to_string(beginPos)
+                    + "-" + std::to_string(endPos) + "/" + fileSizeStr);
                 addHeader("Content-Type", fileType);
                 addHeader("Content-Length", std::to_string(remaining));
                 _buildResponseLineAndHeaders();
@@ -561,40 +561,45 @@ public:
                     [BINARY DATA PART 2]\r\n
                     --BOUNDARY_STRING--\r\n
                 */
-                addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
-                _buildResponseLineAndHeaders();
-                co_await _io.fullySend(_sendBuf); // 先发一个头
+                struct Part {
+                    std::string head;    // 该部分的头
+                    uint64_t beginPos;
+                    uint64_t remaining;
+                };
+                std::vector<Part> parts;
+                constexpr auto EndBoundary = "--BOUNDARY_STRING--\r\n"sv;
+                uint64_t totalSize = EndBoundary.size(); // 整个响应体的大小
                 for (auto& ragen : rangeNumArr) {
-                    auto [begin, end] = utils::StringUtil::splitAtFirst(ragen, "-");
-                    if (begin.empty()) {
-                        begin += '0';
-                    }
-                    if (end.empty()) {
-                        end = std::to_string(fileSize - 1);
-                    }
-                    uint64_t beginPos = std::stoull(begin);
-                    uint64_t endPos = std::stoull(end);
+                    auto range = _parseRange(ragen, fileSize);
                     // 范围不合法: 不会报错, 而是忽略!
-                    if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
+                    if (!range) [[unlikely]] {
                         continue;
                     }
-                    _sendBuf.clear();
-
+                    auto [beginPos, endPos] = *range;
                     uint64_t remaining = endPos - beginPos + 1;
-                    utils::StringUtil::append(_sendBuf, "--BOUNDARY_STRING\r\n"sv);
-                    utils::StringUtil::append(_sendBuf, "Content-Range: bytes "sv);
-                    utils::StringUtil::append(_sendBuf, begin);
-                    utils::StringUtil::append(_sendBuf, "-"sv);
-                    utils::StringUtil::append(_sendBuf, end);
-                    utils::StringUtil::append(_sendBuf, "/"sv);
-                    utils::StringUtil::append(_sendBuf, fileSizeStr);
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    utils::StringUtil::append(_sendBuf, "Content-Length: "sv);
-                    utils::StringUtil::append(_sendBuf, std::to_string(remaining));
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    utils::StringUtil::append(_sendBuf, "Content-Type: application/octet-stream\r\n"sv);
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    co_await _io.fullySend(_sendBuf); // 先发头
+                    std::string head;
+                    head += "--BOUNDARY_STRING\r\n"sv;
+                    head += "Content-Range: bytes "sv;
+                    head += std::to_string(beginPos);
+                    head += "-"sv;
+                    head += std::to_string(endPos);
+                    head += "/"sv;
+                    head += fileSizeStr;
+                    head += CRLF;
+                    head += "Content-Length: "sv;
+                    head += std::to_string(remaining);
+                    head += CRLF;
+                    head += "Content-Type: application/octet-stream\r\n"sv;
+                    head += CRLF;
+                    totalSize += head.size() + remaining + CRLF.size();
+                    parts.emplace_back(std::move(head), beginPos, remaining);
+                }
+                addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
+                addHeader("Content-Length", std::to_string(totalSize));
+                _buildResponseLineAndHeaders();
+                co_await _io.fullySend(_sendBuf); // 先发一个头
+                for (auto& [head, beginPos, remaining] : parts) {
+                    co_await _io.fullySend(head); // 先发头
 
                     utils::AsyncFile file{_io};
                     co_await file.open(filePath);
@@ -627,7 +632,7 @@ public:
                         std::rethrow_exception(err); // 响应体不完整, 不能再复用该连接
                     }
                 }
-                co_await _io.fullySend("--BOUNDARY_STRING--\r\n"sv);
+                co_await _io.fullySend(EndBoundary);
             }
         } else {
             // 普通的传输文件
@@ -837,6 +842,49 @@ private:
         }
     }
 
+    /**
+     * @brief [仅服务端] 解析单个范围: `X-Y` | `X-` | `-N` (最后 N 个字节)
+     * @param range 范围
+     * @param fileSize 文件大小
+     * @return 闭区间 [X, Y], 保证 X <= Y < fileSize; 不合法则为 std::nullopt
+     */
+    static std::optional<std::pair<uint64_t, uint64_t>> _parseRange(
+        std::string_view range, uint64_t fileSize
+    ) noexcept {
+        while (!range.empty() && range.front() == ' ') {
+            range.remove_prefix(1);
+        }
+        auto pos = range.find('-');
+        if (pos == std::string_view::npos || fileSize == 0) {
+            return std::nullopt;
+        }
+        auto toNum = [](std::string_view str, uint64_t& val) noexcept {
+            auto [ptr, ec] = std::from_chars(str.data(), str.data() + str.size(), val);
+            return ec == std::errc{} && ptr == str.data() + str.size();
+        };
+        auto begin = range.substr(0, pos);
+        auto end = range.substr(pos + 1);
+        uint64_t beginPos = 0, endPos = fileSize - 1;
+        if (begin.empty()) { // -N
+            uint64_t n = 0;
+            if (!toNum(end, n) || n == 0) {
+                return std::nullopt;
+            }
+            beginPos = fileSize - std::min(n, fileSize);
+        } else if (!toNum(begin, beginPos)) {
+            return std::nullopt;
+        } else if (!end.empty()) {
+            if (!toNum(end, endPos) || endPos < beginPos) {
+                return std::nullopt;
+            }
+            endPos = std::min(endPos, fileSize - 1);
+        }
+        if (beginPos > endPos) {
+            return std::nullopt;
+        }
+        return std::pair{beginPos, endPos};
+    }
+
     /**
      * @brief [仅服务端] 把 size 大小转换为 16 进制并以符合 ChunkedEncoding 的格式写入 _sendBuf
      * @param size 内容大小
-- 
2.43.0


From 6034c2edc9864f68e76f890bea2458eb508d78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 16/42] fix: HTTP parsers crashed or lost bytes on split
 chunks, pipelined messages and malformed heads

---
 include/HXLibs/net/protocol/http/Http.hpp     |  23 +++
 include/HXLibs/net/protocol/http/Request.hpp  | 189 +++++++++---------
 include/HXLibs/net/protocol/http/Response.hpp |  73 +++----
 3 files changed, 160 insertions(+), 125 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index f1b959d..74fa60a 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -24,6 +24,8 @@
 #include <unordered_map>
 #include <optional>
 #include <chrono>
+#include <charconv>
+#include <stdexcept>
 
 namespace HX::net {
 
@@ -80,6 +82,27 @@ struct TransparentCaseInsensitiveEqual {
     }
 };
 
+/**
+ * @brief 解析报文中的长度 (Content-Length 的值, 或者 chunk 的长度行)
+ * @tparam Base 进制
+ * @throw std::runtime_error 不是一个合法的长度
+ */
+template <int Base>
+inline std::size_t parseBodyLength(std::string_view str) {
+    if constexpr (Base == 16) {
+        str = str.substr(0, str.find(';')); // 忽略 chunk 扩展
+    }
+    while (!str.empty() && (str.back() == ' ' || str.back() == '\t')) {
+        str.remove_suffix(1);
+    }
+    std::size_t res = 0;
+    auto [ptr, ec] = std::from_chars(str.data(), str.data() + str.size(), res, Base);
+    if (ec != std::errc{} || ptr != str.data() + str.size()) [[unlikely]] {
+        throw std::runtime_error{"Http: illegal body length"};
+    }
+    return res;
+}
+
 } // namespace internal
 
 class Http {};
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 1fc6855..04a4c64 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -310,7 +310,8 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserReqHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserReqHead()) {
+        // 先解析已经在缓冲区中的 (可能是连续发送的请求)
+        for (std::size_t n = _parserReqHead(); n; n = _parserReqHead()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -411,32 +412,40 @@ public:
     template <typename Timeout = decltype(5_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> saveToFile(std::string_view path) {
-        utils::AsyncFile file{_io};
-        co_await file.open(path, utils::OpenMode::Write);
         if (_completeBody) [[unlikely]] {
             // 已经解析过 Http Body 了
             throw std::runtime_error{"Have already analyzed the http body"};
         }
+        utils::AsyncFile file{_io};
+        co_await file.open(path, utils::OpenMode::Write);
         _completeBody = true;
-        for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
-            auto res = co_await _io.template recvLinkTimeout<Timeout>(
-                // 保留原有的数据
-                {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
-            );
-            if (res.index() == 1) [[unlikely]] {
-                // 超时
-                throw std::runtime_error{"parseBody: Recv timeout"};
-            }
-            auto recvN = HXLIBS_CHECK_EVENT_LOOP(
-                (res.template get<0, exception::ExceptionMode::Nothrow>())
-            );
-            if (recvN == 0) [[unlikely]] {
-                // 连接断开
-                throw std::runtime_error{"parseBody: Connection is Broken"};
+        std::exception_ptr err;
+        try {
+            for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
+                auto res = co_await _io.template recvLinkTimeout<Timeout>(
+                    // 保留原有的数据
+                    {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
+                );
+                if (res.index() == 1) [[unlikely]] {
+                    // 超时
+                    throw std::runtime_error{"parseBody: Recv timeout"};
+                }
+                auto recvN = HXLIBS_CHECK_EVENT_LOOP(
+                    (res.template get<0, exception::ExceptionMode::Nothrow>())
+                );
+                if (recvN == 0) [[unlikely]] {
+                    // 连接断开
+                    throw std::runtime_error{"parseBody: Connection is Broken"};
+                }
+                _recvBuf.addSize(static_cast<std::size_t>(recvN));
             }
-            _recvBuf.addSize(static_cast<std::size_t>(recvN));
+        } catch (...) {
+            err = std::current_exception();
         }
         co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err);
+        }
     }
 
     // @todo 
@@ -509,6 +518,9 @@ public:
         if (_wildcarDataArr.empty()) [[unlikely]] {
             throw std::runtime_error("No path parameters available to parse.");
         }
+        if (index >= _wildcarDataArr.size()) [[unlikely]] {
+            throw std::out_of_range("The index of the path parameter is out of range.");
+        }
         return _wildcarDataArr[index];
     }
 
@@ -555,8 +567,10 @@ public:
         _requestLine.clear();
         _requestHeaders.clear();
         _requestHeadersIt = _requestHeaders.end();
-        _recvBuf.clear();
+        // _recvBuf 剩余的内容属于下一个请求, 不能丢弃
         _body.clear();
+        _wildcarDataArr = {};
+        _urlWildcardData = {};
         _completeRequestHeader = false;
         _remainingBodyLen.reset();
     }
@@ -691,7 +705,7 @@ private:
                 );
 
                 if (_requestLine.size() < 3) [[unlikely]] {
-                    return IO::kBufMaxSize;
+                    throw std::runtime_error{"Http: illegal start line"};
                 } 
                 // else if (_requestLine.size() > 3) [[unlikely]] {
                 // @todo 理论上不会出现
@@ -717,6 +731,9 @@ private:
                     auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
                     if (p.first.empty()) [[unlikely]] {     // 找不到 ": "
                         if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输请求头的
+                            if (_requestHeadersIt == _requestHeaders.end()) [[unlikely]] {
+                                throw std::runtime_error{"Http: illegal header"};
+                            }
                             _requestHeadersIt->second.append(subKVStr);
                         } else { // 请求头解析完毕!
                             _completeRequestHeader = true;
@@ -755,56 +772,53 @@ private:
         if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 计算剩余待解析字节数
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseBodyLength<10>(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
+                // 多出来的, 属于下一个报文
+                auto data = buf.substr(0, std::min(*_remainingBodyLen, buf.size()));
+                _body.append(data);
+                *_remainingBodyLen -= data.size();
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 return *_remainingBodyLen;
             }
         } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
              * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
+            for (;;) {
+                if (_remainingBodyLen) { // 当前 chunk 还没有读取完
+                    auto data = buf.substr(0, std::min(*_remainingBodyLen, buf.size()));
+                    _body.append(data);
+                    *_remainingBodyLen -= data.size();
+                    buf = buf.substr(data.size());
+                    if (*_remainingBodyLen != 0 || buf.size() < CRLF.size()) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        return IO::kBufMaxSize;
+                    }
+                    if (!buf.starts_with(CRLF)) [[unlikely]] {
+                        throw std::runtime_error{"Http: illegal chunk"};
+                    }
+                    buf = buf.substr(CRLF.size());
                     _remainingBodyLen.reset();
                 }
-            }
-            for (;;) {
                 std::size_t posLen = buf.find(CRLF);
                 if (posLen == std::string_view::npos) { // 没有读完
                     _recvBuf.moveToHead(buf);
                     return IO::kBufMaxSize;
                 }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
+                std::size_t len = internal::parseBodyLength<16>(buf.substr(0, posLen));
+                if (!len) { // 结束块, 其后是 (可选的) 尾部字段和一个空行
+                    std::size_t posEnd = buf.find(HEADER_END_SV, posLen);
+                    if (posEnd == std::string_view::npos) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        return IO::kBufMaxSize;
+                    }
+                    _recvBuf.moveToHead(buf.substr(posEnd + HEADER_END_SV.size()));
+                    return 0; // 解析完毕
                 }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                _remainingBodyLen = len;
+                buf = buf.substr(posLen + CRLF.size());
             }
         }
         return 0;
@@ -821,57 +835,54 @@ private:
         if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 计算剩余待解析字节数
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseBodyLength<10>(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                co_await file.write(buf); // _body.append(buf);
-                _recvBuf.clear();
+                // 多出来的, 属于下一个报文
+                auto data = buf.substr(0, std::min(*_remainingBodyLen, buf.size()));
+                co_await file.write(data);
+                *_remainingBodyLen -= data.size();
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 co_return *_remainingBodyLen;
             }
         } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
              * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                } else { // 读取完了
-                    co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
+            for (;;) {
+                if (_remainingBodyLen) { // 当前 chunk 还没有读取完
+                    auto data = buf.substr(0, std::min(*_remainingBodyLen, buf.size()));
+                    co_await file.write(data);
+                    *_remainingBodyLen -= data.size();
+                    buf = buf.substr(data.size());
+                    if (*_remainingBodyLen != 0 || buf.size() < CRLF.size()) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        co_return IO::kBufMaxSize;
+                    }
+                    if (!buf.starts_with(CRLF)) [[unlikely]] {
+                        throw std::runtime_error{"Http: illegal chunk"};
+                    }
+                    buf = buf.substr(CRLF.size());
                     _remainingBodyLen.reset();
                 }
-            }
-            for (;;) {
                 std::size_t posLen = buf.find(CRLF);
                 if (posLen == std::string_view::npos) { // 没有读完
                     _recvBuf.moveToHead(buf);
                     co_return IO::kBufMaxSize;
                 }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    co_return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
+                std::size_t len = internal::parseBodyLength<16>(buf.substr(0, posLen));
+                if (!len) { // 结束块, 其后是 (可选的) 尾部字段和一个空行
+                    std::size_t posEnd = buf.find(HEADER_END_SV, posLen);
+                    if (posEnd == std::string_view::npos) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        co_return IO::kBufMaxSize;
+                    }
+                    _recvBuf.moveToHead(buf.substr(posEnd + HEADER_END_SV.size()));
+                    co_return 0; // 解析完毕
                 }
-                co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                _remainingBodyLen = len;
+                buf = buf.substr(posLen + CRLF.size());
             }
         }
         co_return 0;
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 9512e28..e35bc0e 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -763,6 +763,7 @@ public:
         _body.clear();
         _responseHeadersIt = _responseHeaders.end();
         _sendBuf.clear();
+        _remainingBodyLen.reset();
         _completeResponseHeader = false;
         _completeBody = false;
     }
@@ -948,7 +949,7 @@ private:
                         buf.substr(0, pos), " "sv
                     );
                     if (_statusLine.size() < 3) [[unlikely]] {
-                        return IO::kBufMaxSize;
+                        throw std::runtime_error{"Http: illegal start line"};
                     }
                     if (_statusLine.size() > 3) {
                         auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
@@ -979,6 +980,9 @@ private:
                     auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
                     if (p.first.empty()) {                  // 找不到 ": "
                         if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输响应头的
+                            if (_responseHeadersIt == _responseHeaders.end()) [[unlikely]] {
+                                throw std::runtime_error{"Http: illegal header"};
+                            }
                             _responseHeadersIt->second.append(subKVStr);
                         } else { // 请求头解析完毕!
                             _completeResponseHeader = true;
@@ -1016,53 +1020,50 @@ private:
         if (_responseHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 是 空行之后 (\r\n\r\n) 的内容大小(char)
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseBodyLength<10>(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
+                // 多出来的, 属于下一个报文
+                auto data = buf.substr(0, std::min(*_remainingBodyLen, buf.size()));
+                _body.append(data);
+                *_remainingBodyLen -= data.size();
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 return *_remainingBodyLen;
             }
         } else if (_responseHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在响应体以`分块传输编码`
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf, 0, *_remainingBodyLen);
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
+            for (;;) {
+                if (_remainingBodyLen) { // 当前 chunk 还没有读取完
+                    auto data = buf.substr(0, std::min(*_remainingBodyLen, buf.size()));
+                    _body.append(data);
+                    *_remainingBodyLen -= data.size();
+                    buf = buf.substr(data.size());
+                    if (*_remainingBodyLen != 0 || buf.size() < CRLF.size()) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        return IO::kBufMaxSize;
+                    }
+                    if (!buf.starts_with(CRLF)) [[unlikely]] {
+                        throw std::runtime_error{"Http: illegal chunk"};
+                    }
+                    buf = buf.substr(CRLF.size());
                     _remainingBodyLen.reset();
                 }
-            }
-            for (;;) {
                 std::size_t posLen = buf.find(CRLF);
                 if (posLen == std::string_view::npos) { // 没有读完
                     _recvBuf.moveToHead(buf);
                     return IO::kBufMaxSize;
                 }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
+                std::size_t len = internal::parseBodyLength<16>(buf.substr(0, posLen));
+                if (!len) { // 结束块, 其后是 (可选的) 尾部字段和一个空行
+                    std::size_t posEnd = buf.find(HEADER_END_SV, posLen);
+                    if (posEnd == std::string_view::npos) { // 没有读完
+                        _recvBuf.moveToHead(buf);
+                        return IO::kBufMaxSize;
+                    }
+                    _recvBuf.moveToHead(buf.substr(posEnd + HEADER_END_SV.size()));
+                    return 0; // 解析完毕
                 }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                _remainingBodyLen = len;
+                buf = buf.substr(posLen + CRLF.size());
             }
         } 
         // else if (_responseHeaders.contains("content-range")) {
@@ -1120,7 +1121,7 @@ private:
                             reinterpret_cast<char*>(&sse) + idx.offset
                         );
                         auto val = buf.substr(skPos + 1, pos - skPos - 1);
-                        if (val.front() == ' ') {
+                        if (!val.empty() && val.front() == ' ') {
                             val = val.substr(1);
                         }
                         internal::fromSse(*ptr, val);
-- 
2.43.0


From 84ac810c09300bf82b7eee5d35acbbd2e5c6b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 17/42] fix: WebSocket lost or mis-popped buffered bytes and
 assumed a whole frame head per read

---
 .../net/protocol/websocket/WebSocket.hpp      | 61 +++++++++----------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index f77fcbc..f7548c1 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -414,25 +414,15 @@ private:
     >
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<Res> recvLinkTimeout(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
-            if (size >= buf.size()) {
-                Res res;
-                res.template emplace<0>(static_cast<
-                    coroutine::AwaiterReturnType<coroutine::AioTask>
-                >(buf.size()));
-                co_return res;
-            }
-            // @todo 此处偷懒了, 因为也没有使用到 get<0>() 的实际的值, 所以没有影响
-            // 但是不保证日后!
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf.subspan(size));
-        } else {
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf);
+        if (auto size = _popRecvBuf(buf)) [[unlikely]] {
+            // 和普通的 recv 一样, 可能没有读满
+            Res res;
+            res.template emplace<0>(static_cast<
+                coroutine::AwaiterReturnType<coroutine::AioTask>
+            >(size));
+            co_return res;
         }
+        co_return co_await _io.template recvLinkTimeout<Timeout>(buf);
     }
 
     /**
@@ -457,19 +447,21 @@ private:
      * @return coroutine::Task<> 
      */
     coroutine::Task<> fullyRecv(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
-            if (size >= buf.size()) {
-                co_return;
-            }
-            co_await _io.fullyRecv(buf.subspan(size));
-        } else {
-            co_await _io.fullyRecv(buf);
+        auto size = _popRecvBuf(buf);
+        co_await _io.fullyRecv(buf.subspan(size));
+    }
+
+    /**
+     * @brief 从 _recvBuf 中取出数据到 buf
+     * @return 取出的字节数 (min(buf.size(), _recvBuf.size()))
+     */
+    std::size_t _popRecvBuf(std::span<char> buf) noexcept {
+        const std::size_t n = std::min(buf.size(), _recvBuf.size());
+        for (std::size_t i = 0; i < n; ++i) {
+            buf[i] = _recvBuf.back();
+            _recvBuf.pop_back();
         }
+        return n;
     }
 
     // 响应 pong (无需暴露, 库内部使用即可)
@@ -546,6 +538,10 @@ private:
                 // 超时 或者 出错
                 co_return std::nullopt;
             }
+            if (res.template get<0, exception::ExceptionMode::Nothrow>() == 1) [[unlikely]] {
+                // 只读到了一个字节
+                co_await fullyRecv(std::span<char>{reinterpret_cast<char*>(head + 1), 1});
+            }
             uint8_t head0 = head[0];
             uint8_t head1 = head[1];
 
@@ -800,12 +796,13 @@ public:
         co_return {_res._io, [&]{
             // 缓存迁移
             std::vector<char> buf;
-            std::size_t n = _res._recvBuf.size();
+            std::size_t n = _req._recvBuf.size();
             buf.resize(n);
-            auto* data = _res._recvBuf.data();
+            auto* data = _req._recvBuf.data();
             for (std::size_t i = 0, j = n - 1; i < n; ++i, --j) {
                 buf[i] = data[j];
             }
+            _req._recvBuf.clear(); // 它们已经不是 http 的数据了
             return buf;
         }()};
     }
-- 
2.43.0


From 0d9446450a0d820d51abc721058991ad641c9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 18/42] fix: WebSocket control frames inside a fragmented
 message corrupted it; stray continuation and reserved bits were accepted

---
 .../net/protocol/websocket/WebSocket.hpp      | 63 ++++++++++---------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index f7548c1..3d0faff 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -391,6 +391,9 @@ private:
     // 缓存之前多读取的内容, 特别的, 原本头部的数据是在尾部! 应该使用 back() + pop_back() 进行遍历
     std::vector<char> _recvBuf;
 
+    // 尚未接收完的分片消息
+    std::optional<WebSocketPacket> _fragment{};
+
     // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
 
     /**
@@ -485,7 +488,6 @@ private:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<std::optional<WebSocketPacket>> recvPacket() {
-        WebSocketPacket packet;
         uint8_t head[2];
 /*
    0               1               2               3
@@ -524,12 +526,7 @@ private:
   以及, 如果分片 (fin = false), 那么它的第一个包是 (Test / Binary), 之后的只能是 Cont
   注意, 分片的数据只能是 Test / Binary
 */
-        // 记录是否为最后一个分片
-        bool fin;
-
-        // 记录第一帧数据内容
-        OpCode firstOpCode{OpCode::Unknown};
-        do {
+        for (;;) {
             auto res = co_await recvLinkTimeout<Timeout>(
                 std::span<char>{reinterpret_cast<char*>(head), 2});
             if (res.index() == 1 
@@ -545,11 +542,17 @@ private:
             uint8_t head0 = head[0];
             uint8_t head1 = head[1];
 
-            // 解析 FIN, 为 0 标识当前为最后一个包
-            fin = (head0 >> 7);
+            // 解析 FIN, 为 1 标识当前为最后一个包
+            bool fin = (head0 >> 7);
+
+            // RSV 没有协商扩展, 必须为 0
+            if (head0 & 0x70) [[unlikely]] {
+                throw std::runtime_error{"Protocol Error: RSV != 0"};
+            }
 
             // 解析 OpCode
-            packet.opCode = static_cast<OpCode>(head0 & 0x0F);
+            OpCode opCode = static_cast<OpCode>(head0 & 0x0F);
+            bool isControl = false;
             
             // 求 MASK 如果非协议要求, 则是协议错误, 应该断开连接
             bool mask = head1 & 0x80;
@@ -559,17 +562,16 @@ private:
             }
 
             uint8_t payloadLen8 = head1 & 0x7F;
-            if (static_cast<uint8_t>(packet.opCode) <= 2) {
-                // 合法的数据帧
-                if (firstOpCode == OpCode::Unknown) [[likely]] {
-                    // 第一包必然是这里
-                    firstOpCode = packet.opCode;
-                } else if (packet.opCode != OpCode::Cont) [[unlikely]] {
-                    // 分片情况下
-                    throw std::runtime_error{"Fragmentation Error: OpCode != Cont"};
+            if (static_cast<uint8_t>(opCode) <= 2) {
+                // 合法的数据帧, 第一包不能是 Cont, 之后的必须是 Cont
+                if (_fragment.has_value() != (opCode == OpCode::Cont)) [[unlikely]] {
+                    throw std::runtime_error{"Fragmentation Error: unexpected OpCode"};
                 }
-            } else if (static_cast<uint8_t>(packet.opCode) >= 8 
-                    && static_cast<uint8_t>(packet.opCode) <= 10
+                if (!_fragment) [[likely]] {
+                    _fragment.emplace(WebSocketPacket{opCode});
+                }
+            } else if (static_cast<uint8_t>(opCode) >= 8 
+                    && static_cast<uint8_t>(opCode) <= 10
             ) {
                 // 控制帧, 必须满足:
                 if (!fin) [[unlikely]] {
@@ -580,7 +582,7 @@ private:
                     throw std::runtime_error{
                         "Control frame too big"};
                 }
-                firstOpCode = packet.opCode;
+                isControl = true;
             } else [[unlikely]] {
                 // 其他保留值, 非法
                 throw std::runtime_error{"Unknown OpCode"};
@@ -606,6 +608,7 @@ private:
                 payloadLen = static_cast<std::size_t>(payloadLen8);
             }
 
+            std::string tmp;
             if constexpr (IsServer) {
                 // 获取掩码
                 uint8_t maskKeyArr[4];
@@ -615,7 +618,6 @@ private:
                 });
     
                 // 解析数据
-                std::string tmp;
                 tmp.resize(payloadLen);
                 co_await fullyRecv(tmp);
     
@@ -624,17 +626,22 @@ private:
                 for (std::size_t i = 0; i != len; ++i) {
                     p[i] ^= maskKeyArr[i % 4];
                 }
-                packet.content += std::move(tmp);
             } else {
                 // 解析数据
-                std::string tmp;
                 tmp.resize(payloadLen);
                 co_await fullyRecv(tmp);
-                packet.content += std::move(tmp);
             }
-        } while (!fin);
-        packet.opCode = firstOpCode;
-        co_return packet;
+            if (isControl) {
+                // 控制帧可以插入在分片之间, 不影响正在接收的消息
+                co_return WebSocketPacket{opCode, std::move(tmp)};
+            }
+            _fragment->content += tmp;
+            if (fin) {
+                WebSocketPacket packet = std::move(*_fragment);
+                _fragment.reset();
+                co_return packet;
+            }
+        }
     }
 
     /**
-- 
2.43.0


From 37d0de9b96e1b239314fcf66e2957646599c44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 19/42] fix: routing matched the query string, so queries hid
 endpoints and could index path segments out of range

---
 include/HXLibs/net/server/ConnectionHandler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 2cf670b..aff4301 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -57,10 +57,10 @@ struct ConnectionHandler {
                     if (!co_await req.template parserReqHead<Timeout>()) [[unlikely]] {
                         break;
                     }
-                    // 路由
+                    // 路由 (查询参数不参与匹配)
                     co_await router.getEndpoint(
                         req.getReqType(), 
-                        req.getReqPath()
+                        req.getPureReqPath()
                     )(req, res);
                     // 只要不是明确写 close 的, 我就复用连接 (keep-alive)
                     if (auto it = req.getHeaders().find(CONNECTION_SV);
-- 
2.43.0


From f3167cd7fbc8cc444aa57a9a50c63ad9263d4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 20/42] fix: wildcard path was cut at the template's offset,
 wrong when the request repeats a slash

---
 include/HXLibs/net/router/Router.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index 3dcb9dd..40cad7b 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -239,7 +239,8 @@ private:
                 break;
             }
             case 0x2: {// 仅解析通配符
-                auto UWPIndex = path.find("/**"sv);
+                auto UWPIndex = utils::StringUtil::split<std::string_view>(
+                    path.substr(0, path.find("/**"sv)), "/").size(); // 固定前缀的段数
                 realEndpoint = [this, endpoint = std::move(endpoint), UWPIndex,
                                 ... interceptors = interceptors](
                                    Request &req,
@@ -249,7 +250,14 @@ private:
                     bool ok = true;
                     auto pureRequesPath = req.getPureReqPath();
                     std::string_view pureRequesPathView = pureRequesPath;
-                    req._urlWildcardData = pureRequesPathView.substr(UWPIndex);
+                    auto pathSplitArr = utils::StringUtil::splitWithPos<std::string_view>(pureRequesPathView, "/");
+                    // 通配内容: 固定前缀最后一段之后的全部 (请求可能含重复的 '/')
+                    std::size_t prefixEnd = 0;
+                    if (UWPIndex > 0) {
+                        auto const& [pos, seg] = pathSplitArr[UWPIndex - 1];
+                        prefixEnd = pos + seg.size();
+                    }
+                    req._urlWildcardData = pureRequesPathView.substr(prefixEnd);
 #if defined(_MSC_VER)
                     co_await doBeforeAll(ok, req, res, interceptors...);
 #else
-- 
2.43.0


From afed152e019586d27d7228e1cace53a2d1664b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 21/42] fix: interceptors of the error endpoint were never
 awaited

---
 include/HXLibs/net/router/Router.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index 40cad7b..6d7503d 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -75,12 +75,20 @@ public:
             -> coroutine::Task<> {
             static_cast<void>(this);
             bool ok = true;
-            static_cast<void>((doBefore(interceptors, ok, req, res) && ...));
+#if defined(_MSC_VER)
+            co_await doBeforeAll(ok, req, res, interceptors...);
+#else
+            ok = (true && ... && co_await doBefore(interceptors, ok, req, res));
+#endif // !defined(_MSC_VER)
             if (ok) {
                 co_await endpoint(req, res);
             }
             ok = true;
-            static_cast<void>((doAfter(interceptors, ok, req, res) && ...));
+#if defined(_MSC_VER)
+            co_await doAfterAll(ok, req, res, interceptors...);
+#else
+            ok = (true && ... && co_await doAfter(interceptors, ok, req, res));
+#endif // !defined(_MSC_VER)
         };
         _routerTree.setNotFoundHandler(std::move(realEndpoint));
     }
-- 
2.43.0


From 95d1df85cfa435f69a7487eb2354efda7c359271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 22/42] fix: XorShift32 never starts in the all-zero state

---
 include/HXLibs/utils/Random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/utils/Random.hpp b/include/HXLibs/utils/Random.hpp
index acf67e5..d7937ec 100644
--- a/include/HXLibs/utils/Random.hpp
+++ b/include/HXLibs/utils/Random.hpp
@@ -27,7 +27,8 @@ struct XorShift32 {
     result_type val;
 
     constexpr XorShift32(std::size_t seed = 0) 
-        : val(static_cast<result_type>(seed + 1)) 
+        // 状态 0 是 xorshift 的不动点 (之后永远生成 0), 不能作为初始状态
+        : val(static_cast<result_type>(seed + 1) ? static_cast<result_type>(seed + 1) : 1)
     {}
 
     constexpr result_type operator()() noexcept {
-- 
2.43.0


From 5fd2b9395111be84455a53c54c2648bece2f7ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 23/42] fix: reset cached SQL statements after every execution,
 also when it fails

---
 include/HXLibs/db/sql/Dml.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 1913db3..c2c2845 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -104,6 +104,21 @@ struct DataBaseSqlBuildView {
     ColumnResult<meta::ValueWrap<Vs...>> returning() {
         return _db->_stmt.template returning<Vs...>();
     }
+
+    /**
+     * @brief 离开作用域时重置 stmt, 使得缓存的 stmt 可以再次绑定与执行
+     */
+    struct ResetGuard {
+        DataBaseSqlBuildView& view;
+
+        ~ResetGuard() noexcept {
+            try {
+                view.reset();
+            } catch (...) {
+                ; // reset 仅会重复报告 step 的错误
+            }
+        }
+    };
 };
 
 template <typename Db>
@@ -468,6 +483,7 @@ struct SelectSqlBuild {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.prepareSql();
         }
+        typename meta::RemoveCvRefType<Db>::ResetGuard _{this->_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!this->_dbRef.bind(Idx + 1, std::forward<Ts>(std::get<Idx>(ts)))) [[unlikely]] {
@@ -477,7 +493,6 @@ struct SelectSqlBuild {
         }(std::make_index_sequence<sizeof...(Ts)>{});
         std::vector<ColumnResType> res{};
         this->_dbRef.selectForEach(res);
-        this->_dbRef.reset();
         return res;
     }
 
@@ -922,6 +937,7 @@ struct InsertSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        typename meta::RemoveCvRefType<Db>::ResetGuard _{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -1039,6 +1055,7 @@ struct MutationSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        typename meta::RemoveCvRefType<Db>::ResetGuard _{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -1109,6 +1126,7 @@ struct MutationReturningSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        typename meta::RemoveCvRefType<Db>::ResetGuard _{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
-- 
2.43.0


From bbd9a3ed11b149587da312e0e3bd033a73bd336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 24/42] fix: SqliteDB releases its statements and connection
 once when closed, reopened, moved or when opening fails

---
 include/HXLibs/db/sqlite3/SqliteDB.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteDB.hpp b/include/HXLibs/db/sqlite3/SqliteDB.hpp
index 1401a16..40e26e9 100644
--- a/include/HXLibs/db/sqlite3/SqliteDB.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteDB.hpp
@@ -41,17 +41,19 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
     }
 
     SqliteDB& operator=(SqliteDB&& that) noexcept {
-        static_cast<DataBaseCrtp<SqliteDB>&>(*this) = std::move(that);
+        // 缓存的 stmt 属于各自的连接, 且保存了所属对象的地址
+        Base::clearCache();
+        that.clearCache();
         std::swap(that._db, _db);
         return *this;
     }
 
     void open(std::string_view filePath) {
         close();
-        if (::sqlite3_open(filePath.data(), &_db) != SQLITE_OK) [[unlikely]] {
-            throw std::runtime_error{
-                "Failed to open database: " + std::string{::sqlite3_errmsg(_db)}
-            };
+        if (::sqlite3_open(std::string{filePath}.c_str(), &_db) != SQLITE_OK) [[unlikely]] {
+            std::string err = "Failed to open database: " + std::string{::sqlite3_errmsg(_db)};
+            close();
+            throw std::runtime_error{err};
         }
     }
 
@@ -59,6 +61,8 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         if (!_db) {
             return;
         }
+        // 需要清空缓存, 否则无法释放 sqlite3_close
+        Base::clearCache();
 #ifndef NDEBUG
         sqlite3_stmt* stmt = nullptr;
         while ((stmt = sqlite3_next_stmt(_db, stmt))) {
@@ -66,17 +70,16 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         }
 #endif
         sqlite3_close(_db);
+        _db = nullptr;
     }
 
     ~SqliteDB() noexcept {
-        // 需要清空缓存, 否则无法释放 sqlite3_close
-        Base::clearCache();
         close();
     }
 
     void exec(std::string_view sql) {
         char* errMsg = nullptr;
-        if (::sqlite3_exec(_db, sql.data(), nullptr, nullptr, &errMsg) != SQLITE_OK) [[unlikely]] {
+        if (::sqlite3_exec(_db, std::string{sql}.c_str(), nullptr, nullptr, &errMsg) != SQLITE_OK) [[unlikely]] {
             std::string err = errMsg ? errMsg : "unknown error";
             ::sqlite3_free(errMsg);
             throw std::runtime_error{err};
-- 
2.43.0


From 892d51d51684672d1b11423643dc89d4ea123e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 25/42] fix: read NULL columns of optional type as empty

---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 045035c..1ce3295 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -103,7 +103,7 @@ public:
                 resArr.emplace_back([&] {
                     using Res = typename decltype(internal::toCol<Vs>())::Type;
                     using Type = meta::RemoveOptionalWrapType<Res>;
-                    if constexpr (meta::IsOptionalVal<Type>) {
+                    if constexpr (meta::IsOptionalVal<Res>) {
                         if (sqlite3_column_type(_stmt, static_cast<int>(Idx)) == SQLITE_NULL) {
                             return Res{};
                         }
@@ -192,7 +192,7 @@ public:
             return ColumnResult<meta::ValueWrap<Vs...>>([&]() constexpr {
                 using Res = typename decltype(internal::toCol<Vs>())::Type;
                 using Type = meta::RemoveOptionalWrapType<Res>;
-                if constexpr (meta::IsOptionalVal<Type>) {
+                if constexpr (meta::IsOptionalVal<Res>) {
                     if (sqlite3_column_type(_stmt, static_cast<int>(Idx)) == SQLITE_NULL) {
                         return Res{};
                     }
-- 
2.43.0


From fae2bb1d1347a29cba9616ea82a5a0dbc11cdaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 26/42] fix: report failed SQL steps as std::runtime_error

---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 1ce3295..b59e7f9 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -116,7 +116,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
@@ -128,7 +128,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
-- 
2.43.0


From 6102890758a1606157276a085f836949f203ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 27/42] fix: let SQLite copy serialised custom values, which do
 not outlive bind

---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index b59e7f9..28d033d 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -171,7 +171,7 @@ public:
                 return SQLITE_OK == ::sqlite3_bind_blob(_stmt, i, data.data(), static_cast<int>(data.size()), nullptr);
             } else if constexpr (IsCustomTypeVal<SqlType>) {
                 auto const& sqlData = CustomType<Type>::toSql(data);
-                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, sqlData.data(), static_cast<int>(sqlData.size()), nullptr);
+                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, sqlData.data(), static_cast<int>(sqlData.size()), SQLITE_TRANSIENT);
             } else {
                 // 不支持该类型
                 static_assert(!sizeof(SqlType), "type is not sql type");
-- 
2.43.0


From 9b20b0e4013313b1afadfdc996c22e5c5bcfca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 28/42] fix: keep the grouping of nested SQL expressions

---
 include/HXLibs/db/sql/Dml.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index c2c2845..98bedeb 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -340,7 +340,10 @@ constexpr void expandExpr(std::string& res) {
     if constexpr (IsParamVal<T>) {
         res += "?";
     } else if constexpr (IsExpressionVal<T>) {
+        // 子表达式的结合顺序由表达式树决定, 而不是 SQL 的优先级
+        res += '(';
         res += exprToString<Expr>();
+        res += ')';
     } else if constexpr (IsColTypeVal<T>) {
         res += makeColName<Expr>();
     } else if constexpr (meta::IsFixedStringVal<T>) {
@@ -370,10 +373,10 @@ constexpr std::string exprToString() {
     using T = decltype(Expr);
     if constexpr (IsCalculateExprTypeVal<T> || Is3OpExprVal<T>) {
         using Expr1 = decltype(Expr._expr1);
-        if constexpr (IsExpressionVal<Expr1>) {
-            res += exprToString<Expr._expr1>();
-        } else if constexpr (IsColTypeVal<Expr1>) {
-            res += makeColName<Expr._expr1>();
+        if constexpr (IsExpressionVal<Expr1> || IsColTypeVal<Expr1>
+            || meta::IsFixedStringVal<Expr1> || IsSqlNumberTypeVal<Expr1>
+        ) {
+            expandExpr<Expr._expr1>(res);
         } else {
             // 非法表达式
             static_assert(!sizeof(Expr), "illegal expression");
-- 
2.43.0


From 5eb7b5f13006b74327259f89b013ee0ba3492e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 29/42] fix: keep the operand order of SQL expressions whose
 left operand is a constant

---
 include/HXLibs/db/sql/Expression.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/db/sql/Expression.hpp b/include/HXLibs/db/sql/Expression.hpp
index d7cb227..2df84d1 100644
--- a/include/HXLibs/db/sql/Expression.hpp
+++ b/include/HXLibs/db/sql/Expression.hpp
@@ -162,8 +162,8 @@ struct Expression<Op, Expr, void> {
             && std::same_as<decltype(v),                                       \
                             meta::RemoveOptionalWrapType<typename C::Type>>)   \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }
 
 HX_DB_3OP_COMP_IMPL(<, op::Lt)
@@ -200,8 +200,8 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
             && std::same_as<decltype(v),                                       \
                             meta::RemoveOptionalWrapType<typename C::Type>>)   \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }                                                                          \
     template <ColType C, CalculateExprType CET>                                \
     constexpr Expression<C, decltype(OP_NAME), CET> operator OP(               \
@@ -209,9 +209,9 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
         return {c, OP_NAME, cet};                                              \
     }                                                                          \
     template <CalculateExprType CET, ColType C>                                \
-    constexpr Expression<C, decltype(OP_NAME), CET> operator OP(               \
+    constexpr Expression<CET, decltype(OP_NAME), C> operator OP(               \
         CET cet, C c) noexcept {                                               \
-        return {c, OP_NAME, cet};                                              \
+        return {cet, OP_NAME, c};                                              \
     }                                                                          \
     template <CalculateExprType CET>                                           \
     constexpr auto operator OP(CET cet, auto v) noexcept                       \
@@ -224,8 +224,8 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
     constexpr auto operator OP(auto v, CET cet) noexcept                       \
         requires(IsSqlNumberTypeVal<decltype(v)>)                              \
     {                                                                          \
-        return Expression<CET, decltype(OP_NAME), decltype(v), void>{          \
-            cet, OP_NAME, std::move(v)};                                       \
+        return Expression<decltype(v), decltype(OP_NAME), CET, void>{          \
+            std::move(v), OP_NAME, cet};                                       \
     }
 
 HX_DB_3OP_NUMBER_IMPL(==, op::Eq)
@@ -255,8 +255,8 @@ HX_DB_3OP_NUMBER_IMPL(%, op::Mod)
             meta::StringType<meta::RemoveOptionalWrapType<typename C::Type>>   \
             && meta::IsFixedStringVal<decltype(v)>)                            \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }
 
 HX_DB_3OP_STR_IMPL(==, op::Eq)
-- 
2.43.0


From 43c934203916be95ddaf2a5fcf83ef404b59004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 30/42] fix: escape quotes in SQL string literals

---
 include/HXLibs/db/sql/Dml.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 98bedeb..c4382eb 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -348,7 +348,12 @@ constexpr void expandExpr(std::string& res) {
         res += makeColName<Expr>();
     } else if constexpr (meta::IsFixedStringVal<T>) {
         res += '\'';
-        res += Expr;
+        for (char c : static_cast<std::string_view>(Expr)) {
+            if (c == '\'') {
+                res += '\''; // 转义: 字面量中的单引号需要双写
+            }
+            res += c;
+        }
         res += '\'';
     } else if constexpr (IsSqlNumberTypeVal<T>) {
         res += log::toString(Expr);
-- 
2.43.0


From 4ba56ed420b6df60287c2b936e3272beba7ba12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 31/42] fix: build the SQL text of a template from scratch,
 once

---
 include/HXLibs/db/sql/Dml.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index c4382eb..fe1f4dd 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -561,10 +561,12 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> + IsParamVal<decltype(MaxCnt)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
-        this->_dbRef.sql() += ',';
-        internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+            this->_dbRef.sql() += ',';
+            internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::get<I>(_tp)..., std::forward<Us>(us)...};
@@ -577,8 +579,10 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::get<I>(_tp)..., std::forward<Us>(us)...};
@@ -696,9 +700,11 @@ struct GroupByBuild : public HavingBuild<Db> {
     template <Col... Cs>
         requires (sizeof...(Cs) > 0)
     HavingBuild<Db, Ts&&...> groupBy() && {
-        this->_dbRef.sql() += "GROUP BY ";
-        ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
-        this->_dbRef.sql().back() = ' ';
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "GROUP BY ";
+            ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
+            this->_dbRef.sql().back() = ' ';
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return HavingBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
         }(std::make_index_sequence<N>{});
@@ -911,7 +917,7 @@ struct SelectBuild : public SelectSqlBuild<Db> {
         requires (sizeof...(Cs) > 0)
     constexpr FromBuild<Db> select() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
-            this->_dbRef.sql() += "SELECT ";
+            this->_dbRef.sql() = "SELECT "; // 之前可能有未执行或预编译失败的残留
             ([this] <auto C> (meta::ValueWrap<C>) {
                 using U = decltype(C);
                 if constexpr (IsColTypeVal<U>) {
-- 
2.43.0


From 0e9a71259c8f1c6681e698726308b015a38edbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 32/42] fix: reading a JSON bool checks for the end of the text
 and for other words

---
 include/HXLibs/reflection/deserialization/Numer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/HXLibs/reflection/deserialization/Numer.hpp b/include/HXLibs/reflection/deserialization/Numer.hpp
index 8eb3cc0..96c6312 100644
--- a/include/HXLibs/reflection/deserialization/Numer.hpp
+++ b/include/HXLibs/reflection/deserialization/Numer.hpp
@@ -36,6 +36,9 @@ struct Numer {
         requires(std::is_same_v<bool, T>)
     static void fromNumer(T& t, It&& it, It&& end) {
         // 解析布尔
+        if (it == end) [[unlikely]] {
+            throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
+        }
         if (*it == '0' || *it == '1') {
             t = *it++ - '0';
         } else {
@@ -66,7 +69,9 @@ struct Numer {
             ) {
                 t = false;
                 it += 5;
+                return;
             }
+            throw std::runtime_error{"Characters are not as expected"};
         }
     }
 
-- 
2.43.0


From bdf0d416147e8e8ea7597d2765d79853241bd4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 33/42] fix: a truncated UTF-8 sequence at the end of a string
 is rejected when writing JSON

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index 29ef305..24aa5b1 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -65,10 +65,16 @@ inline unsigned char GetRange(unsigned char c) {
 
 // https://github.com/Tencent/rapidjson/blob/master/include/rapidjson/encodings.h
 template <typename Ch = char, typename It>
-inline bool decodeUtf8(It&& it, unsigned& codepoint) {
+inline bool decodeUtf8(It&& it, It&& end, unsigned& codepoint) {
     auto c = *(it++);
     bool result = true;
     auto copy = [&]() constexpr {
+        if (it == end) [[unlikely]] {
+            // 序列被截断
+            c = 0;
+            result = false;
+            return;
+        }
         c = *(it++);
         codepoint = (codepoint << 6) | (static_cast<unsigned char>(c) & 0x3Fu);
     };
@@ -127,13 +133,13 @@ inline bool decodeUtf8(It&& it, unsigned& codepoint) {
 }
 
 template <typename Stream, typename Ch>
-inline void writeUnicodeToString(Ch& it, Stream& ss) {
+inline void writeUnicodeToString(Ch& it, Ch& end, Stream& ss) {
     static const char hexDigits[16] = {
         '0', '1', '2', '3', '4', '5', '6', '7',
         '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'
     };
     unsigned codepoint = 0;
-    if (!decodeUtf8(it, codepoint)) [[unlikely]] {
+    if (!decodeUtf8(it, end, codepoint)) [[unlikely]] {
         throw std::runtime_error("illegal unicode character");
     }
     ss.push_back('\\');
@@ -196,7 +202,7 @@ inline void writeStringWithEscape(
     std::advance(end, length);
     while (it < end) {
         if (static_cast<unsigned>(*it) >= 0x80) [[unlikely]] {
-            writeUnicodeToString(it, s);
+            writeUnicodeToString(it, end, s);
         } else if (escape[static_cast<unsigned char>(*it)]) [[unlikely]] {
             s.push_back('\\');
             s.push_back(escape[static_cast<unsigned char>(*it)]);
-- 
2.43.0


From 9c555d614f91ca6e091a33e2f526db489bcfff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 34/42] fix: write char members as numbers and empty tuples as
 [] in JSON

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index 24aa5b1..bd937d3 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -271,6 +271,8 @@ struct ToJson {
     static void toJson(T const& t, S& s) {
         if constexpr (NF != static_cast<size_t>(-1)) {
             s.append(std::format("{:." + std::format("{}", NF) + "f}", t));
+        } else if constexpr (std::is_same_v<T, char>) {
+            s.append(std::format("{}", static_cast<int>(t))); // 读取时按数字解析
         } else {
             s.append(std::format("{}", t));
         }
@@ -343,6 +345,10 @@ struct ToJson {
     static void toJson(T const& tp, S& s) {
         s.push_back('[');
         constexpr auto N = std::tuple_size_v<T>;
+        if constexpr (N == 0) {
+            s.push_back(']');
+            return;
+        }
         [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             ([&]() constexpr {
                 toJson(std::get<I>(tp), s);
-- 
2.43.0


From 720bf4706073641c40f0ea6c6474ed642036327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 35/42] fix: \u surrogate pairs in JSON strings are combined,
 lone surrogates rejected

---
 include/HXLibs/reflection/json/JsonRead.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 36cfaeb..c657fcb 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -161,6 +161,20 @@ void handleEscapeChar(Str& str, It&& it, It&& end) {
 /**
  * @brief 验证当前 it 开始 是否为 Cs... 字符, 如果不是则抛出异常
  * @tparam Cs 
+            if (code_point >= 0xD800 && code_point <= 0xDFFF) {
+                // UTF-16 代理对: 必须由高位与低位代理组成
+                if (code_point >= 0xDC00 || std::distance(it, end) <= 6
+                    || *it != '\\' || *(it + 1) != 'u'
+                ) [[unlikely]] {
+                    throw std::runtime_error{"Invalid surrogate pair"};
+                }
+                it += 2;
+                auto low = cv::parseUnicodeHex4(it);
+                if (low < 0xDC00 || low > 0xDFFF) [[unlikely]] {
+                    throw std::runtime_error{"Invalid surrogate pair"};
+                }
+                code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+            }
  * @tparam It 
  * @param it 
  * @param end 
-- 
2.43.0


From 48a03f26feec7c5146b26b2b75fa3bd39a9cfa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 36/42] fix: reading JSON never reads past the end of the text,
 tuples take what the array has

Truncated strings, arrays and objects are rejected; an array with more elements than the
tuple it fills is rejected, one with fewer leaves the rest of the tuple as it is.
---
 include/HXLibs/reflection/json/JsonRead.hpp | 79 ++++++++++++---------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index c657fcb..15fa139 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -122,6 +122,17 @@ void skipWhiteSpace(It&& it, It&& end) {
     }
 }
 
+/**
+ * @brief 查看当前字符是否为 C; 如果已经没有字符则抛出异常
+ */
+template <char C, typename It>
+bool peekIs(It&& it, It&& end) {
+    if (it == end) [[unlikely]] {
+        throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
+    }
+    return *it == C;
+}
+
 /**
  * @brief 处理转义字符
  * @tparam It 
@@ -150,17 +161,6 @@ void handleEscapeChar(Str& str, It&& it, It&& end) {
                 throw std::runtime_error(R"(Expected 4 hexadecimal digits)");
             }
             auto code_point = cv::parseUnicodeHex4(it);
-            cv::encodeUtf8(str, code_point); // 内部会移动 it
-            return;
-        }
-        default: str += *it; break;
-    }
-    ++it; // 下一个字符
-}
-
-/**
- * @brief 验证当前 it 开始 是否为 Cs... 字符, 如果不是则抛出异常
- * @tparam Cs 
             if (code_point >= 0xD800 && code_point <= 0xDFFF) {
                 // UTF-16 代理对: 必须由高位与低位代理组成
                 if (code_point >= 0xDC00 || std::distance(it, end) <= 6
@@ -175,6 +175,17 @@ void handleEscapeChar(Str& str, It&& it, It&& end) {
                 }
                 code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
             }
+            cv::encodeUtf8(str, code_point); // 内部会移动 it
+            return;
+        }
+        default: str += *it; break;
+    }
+    ++it; // 下一个字符
+}
+
+/**
+ * @brief 验证当前 it 开始 是否为 Cs... 字符, 如果不是则抛出异常
+ * @tparam Cs 
  * @tparam It 
  * @param it 
  * @param end 
@@ -309,8 +320,8 @@ struct FromJson {
         skipWhiteSpace(it, end);
         // 解析字符串
         verify<'"'>(it, end);
-        while (it != end) {
-            if (*it == '"') [[unlikely]] {
+        while (true) {
+            if (peekIs<'"'>(it, end)) [[unlikely]] {
                 ++it;
                 break;
             }
@@ -330,7 +341,7 @@ struct FromJson {
         verify<'['>(it, end);
 
         skipWhiteSpace(it, end);
-        if (*it == ']') [[unlikely]] {
+        if (peekIs<']'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
@@ -338,11 +349,11 @@ struct FromJson {
         if constexpr (requires (T& t) {
             t.emplace_back();
         }) {
-            while (it != end) {
+            while (true) {
                 // 把内容移交
                 fromJson(t.emplace_back(), it, end);
                 skipWhiteSpace(it, end);
-                if (*it == ']') {
+                if (peekIs<']'>(it, end)) {
                     ++it;
                     break;
                 }
@@ -362,13 +373,13 @@ struct FromJson {
         verify<'['>(it, end);
 
         skipWhiteSpace(it, end);
-        if (*it == ']') [[unlikely]] {
+        if (peekIs<']'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
         // 解析数组 []
         std::size_t idx = 0;
-        while (it != end) {
+        while (true) {
             if (idx >= t.size()) [[unlikely]] {
                 // 数组没有足够的空间存放数据
                 throw std::runtime_error{"The array doesn't have enough space for data"};
@@ -376,7 +387,7 @@ struct FromJson {
             // 把内容移交
             fromJson(t[idx++], it, end);
             skipWhiteSpace(it, end);
-            if (*it == ']') {
+            if (peekIs<']'>(it, end)) {
                 ++it;
                 break;
             }
@@ -391,28 +402,32 @@ struct FromJson {
         verify<'['>(it, end);
 
         skipWhiteSpace(it, end);
-        if (*it == ']') [[unlikely]] {
+        if (peekIs<']'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
         // 解析数组 []
         constexpr auto N = std::tuple_size_v<T>;
         [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
+            bool isEnd = false;
             ([&]() {
-                if (it == end) {
-                    return;
+                if (isEnd) {
+                    return; // 元素比元组少
                 }
                 // 把内容移交
                 fromJson(std::get<I>(t), it, end);
                 skipWhiteSpace(it, end);
-                if (*it == ']') {
+                if (peekIs<']'>(it, end)) {
                     ++it;
+                    isEnd = true;
                     return;
                 }
-                if constexpr (I != N -1) {
-                    verify<','>(it, end);
-                }
+                verify<','>(it, end);
             }(), ...);
+            if (!isEnd) [[unlikely]] {
+                // 元组没有足够的空间存放数据
+                throw std::runtime_error{"The tuple doesn't have enough space for data"};
+            }
         }(std::make_index_sequence<N>{});
     }
 
@@ -423,18 +438,18 @@ struct FromJson {
         verify<'{'>(it, end);
 
         skipWhiteSpace(it, end);
-        if (*it == '}') [[unlikely]] {
+        if (peekIs<'}'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
-        while (it != end) {
+        while (true) {
             auto& val = insertOrAssign(t, it, end);
             skipWhiteSpace(it, end);
             verify<':'>(it, end);
             fromJson(val, it, end);
 
             skipWhiteSpace(it, end);
-            if (*it == '}') {
+            if (peekIs<'}'>(it, end)) {
                 ++it;
                 break;
             }
@@ -454,7 +469,7 @@ struct FromJson {
     
         skipWhiteSpace(it, end);
         // 不太可能是空的
-        if (*it == '}') [[unlikely]] {
+        if (peekIs<'}'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
@@ -463,7 +478,7 @@ struct FromJson {
         if constexpr (N > 0) {
             static const auto nameHash = reflection::makeNameToIdxVariantHashMap<T>();
             // 需要 name -> idx 映射
-            while (it != end) {
+            while (true) {
                 auto key = findKey(it, end);
                 // 找 ':'
                 skipWhiteSpace(it, end);
@@ -495,7 +510,7 @@ struct FromJson {
 
                 // 找 ',' 或者 '}'
                 skipWhiteSpace(it, end);
-                if (*it == '}') {
+                if (peekIs<'}'>(it, end)) {
                     ++it;
                     break;
                 }
-- 
2.43.0


From 26af89eaba80283b14c618c58995545ba95d06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 37/42] fix: base64UrlDecode rejects characters outside the
 alphabet

---
 .../HXLibs/net/protocol/codec/Base64Url.hpp   | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/net/protocol/codec/Base64Url.hpp b/include/HXLibs/net/protocol/codec/Base64Url.hpp
index eff12a9..021fb41 100644
--- a/include/HXLibs/net/protocol/codec/Base64Url.hpp
+++ b/include/HXLibs/net/protocol/codec/Base64Url.hpp
@@ -111,12 +111,21 @@ inline std::string base64UrlDecode(std::string_view input) {
     const uint8_t* inPtr  = reinterpret_cast<const uint8_t*>(input.data());
     uint8_t* outPtr = reinterpret_cast<uint8_t*>(out.data());
 
+    // 只接受字母表内的字符
+    const auto decode = [](uint8_t c) -> uint32_t {
+        const uint8_t v = kDecodeTable[c];
+        if (v == 0xFF) [[unlikely]] {
+            throw std::runtime_error("invalid base64 character");
+        }
+        return v;
+    };
+
     // 处理整块 4 字符
     for (std::size_t i = 0; i < fullBlocks; ++i) {
-        uint32_t v = (static_cast<uint32_t>(kDecodeTable[inPtr[0]]) << 18u) |
-                     (static_cast<uint32_t>(kDecodeTable[inPtr[1]]) << 12u) |
-                     (static_cast<uint32_t>(kDecodeTable[inPtr[2]]) << 6u)  |
-                      static_cast<uint32_t>(kDecodeTable[inPtr[3]]);
+        uint32_t v = (decode(inPtr[0]) << 18u) |
+                     (decode(inPtr[1]) << 12u) |
+                     (decode(inPtr[2]) << 6u)  |
+                      decode(inPtr[3]);
 
         *outPtr++ = (v >> 16) & 0xFF;
         *outPtr++ = (v >> 8) & 0xFF;
@@ -126,13 +135,13 @@ inline std::string base64UrlDecode(std::string_view input) {
 
     // 处理最后残余 2~3 字符
     if (rem == 2) {
-        uint32_t v = (static_cast<uint32_t>(kDecodeTable[inPtr[0]]) << 6u) | 
-                      static_cast<uint32_t>(kDecodeTable[inPtr[1]]);
+        uint32_t v = (decode(inPtr[0]) << 6u) | 
+                      decode(inPtr[1]);
         *outPtr++ = (v >> 4) & 0xFF;
     } else if (rem == 3) {
-        uint32_t v = (static_cast<uint32_t>(kDecodeTable[inPtr[0]]) << 12u) |
-                     (static_cast<uint32_t>(kDecodeTable[inPtr[1]]) << 6u)  |
-                      static_cast<uint32_t>(kDecodeTable[inPtr[2]]);
+        uint32_t v = (decode(inPtr[0]) << 12u) |
+                     (decode(inPtr[1]) << 6u)  |
+                      decode(inPtr[2]);
         *outPtr++ = (v >> 10) & 0xFF;
         *outPtr++ = (v >> 2) & 0xFF;
     }
-- 
2.43.0


From 1ff842cbee4e9e809e3424c0d2ca93a8f6588830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 38/42] fix: an IV is used only when RAND_bytes reports success

---
 include/HXLibs/net/token/tools/Aes256Gcm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/token/tools/Aes256Gcm.hpp b/include/HXLibs/net/token/tools/Aes256Gcm.hpp
index 003781a..8cc0b7e 100644
--- a/include/HXLibs/net/token/tools/Aes256Gcm.hpp
+++ b/include/HXLibs/net/token/tools/Aes256Gcm.hpp
@@ -78,7 +78,7 @@ public:
     // 生成随机IV
     static std::vector<unsigned char> generateRandomIV(std::size_t length = 12) {
         std::vector<unsigned char> iv(length);
-        if (!::RAND_bytes(iv.data(), static_cast<int>(iv.size()))) {
+        if (::RAND_bytes(iv.data(), static_cast<int>(iv.size())) != 1) {
             throw std::runtime_error("IV generation failed");
         }
         return iv;
-- 
2.43.0


From c8c6fde75d968219c37cac6461fb96600a868558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 39/42] fix: Aes256Gcm releases its context when the key has
 the wrong size

---
 include/HXLibs/net/token/tools/Aes256Gcm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/net/token/tools/Aes256Gcm.hpp b/include/HXLibs/net/token/tools/Aes256Gcm.hpp
index 8cc0b7e..e1c4c12 100644
--- a/include/HXLibs/net/token/tools/Aes256Gcm.hpp
+++ b/include/HXLibs/net/token/tools/Aes256Gcm.hpp
@@ -38,6 +38,7 @@ public:
                reinterpret_cast<const unsigned char*>(key.data()) + key.size()}
     {
         if (key.size() != KeyLen) [[unlikely]] {
+            ::EVP_CIPHER_CTX_free(_ctx);
             throw std::runtime_error("AES-256-GCM key size must be 32 bytes");
         }
 
-- 
2.43.0


From 9db04796c259d51ef6fcd4c398d2c8476350a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 40/42] fix: SOCKS5 sub-negotiation reads the proxy's answer
 instead of sending an uninitialised one

---
 include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
index 036a998..ee60a04 100644
--- a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
@@ -57,7 +57,7 @@ private:
         co_await _io.fullySend(authRequest);
 
         char authResponse[2];
-        co_await _io.fullySend(authResponse);
+        co_await _io.fullyRecv(authResponse);
         if (authResponse[1] != 0x00) {
             throw std::invalid_argument("sub-negotiation: REP is " + std::to_string(authResponse[1]));
         }
-- 
2.43.0


From f01f3234f6d2baeb3bb5aff34c6916dd056968d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 41/42] fix: SOCKS5 connect reads the proxy's reply as long as
 it is, not as long as the request was

---
 .../HXLibs/net/protocol/proxy/Socks5Proxy.hpp | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
index ee60a04..3c5019d 100644
--- a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
@@ -141,7 +141,9 @@ private:
             ::htons(UrlParse::getProtocolPort(parser.getService()));
 
         co_await _io.fullySend(connectRequest);
-        co_await _io.fullyRecv(connectRequest);
+
+        char reply[4];
+        co_await _io.fullyRecv(reply);
 
         /**
          * @brief 
@@ -156,7 +158,7 @@ private:
          *                                                16 (IPv6)	
          * BND.PORT	    绑定端口	    unsigned short	2
          */
-        if (connectRequest[1] != 0x00) [[unlikely]] { // 失败
+        if (reply[1] != 0x00) [[unlikely]] { // 失败
             /**
              * @brief 服务器响应消息中的 REP 字段如果不为 0x00, 则表示请求失. 不同值的具体含义如下:
              * 0x00 成功
@@ -169,8 +171,25 @@ private:
              * 0x07 不支持的命令
              * 0x08 不支持的地址类型
              */
-            throw std::invalid_argument("Connect Request: REP is " + std::to_string(connectRequest[1]));
+            throw std::invalid_argument("Connect Request: REP is " + std::to_string(reply[1]));
+        }
+
+        // 读完 BND.ADDR 和 BND.PORT, 之后的字节才属于目标服务器
+        std::size_t addrLen = 0;
+        switch (reply[3]) {
+        case 0x01: addrLen = 4; break;
+        case 0x04: addrLen = 16; break;
+        case 0x03: {
+            unsigned char domainLen[1];
+            co_await _io.fullyRecv(std::span<char>{reinterpret_cast<char*>(domainLen), 1});
+            addrLen = domainLen[0];
+            break;
+        }
+        default:
+            throw std::invalid_argument("Connect Request: ATYP is " + std::to_string(reply[3]));
         }
+        std::string bound(addrLen + 2, '\0');
+        co_await _io.fullyRecv(bound);
     }
 };
 
-- 
2.43.0


From d0d057c6599bb0a97cd1a640e6c9b7e206d420c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 42/42] fix: SOCKS5 refuses credentials and host names that do
 not fit their length byte

---
 include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
index 3c5019d..533420a 100644
--- a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
@@ -47,6 +47,9 @@ private:
         std::string_view username, 
         std::string_view password
     ) {
+        if (username.size() > 255 || password.size() > 255) [[unlikely]] {
+            throw std::invalid_argument("sub-negotiation: username or password too long");
+        }
         // 发送用户名密码进行验证
         std::string authRequest;
         authRequest += static_cast<char>(0x01);
@@ -134,6 +137,9 @@ private:
          *      - 域名 (unsigned char []) (可变长度)
          */
         UrlInfoExtractor parser(targetUrl);
+        if (parser.getHostname().size() > 255) [[unlikely]] {
+            throw std::invalid_argument("Connect Request: hostname too long");
+        }
         connectRequest += static_cast<char>(parser.getHostname().size());
         connectRequest += parser.getHostname();
         connectRequest.resize(connectRequest.size() + 2);
-- 
2.43.0

