From c5a717bd176b36247e337934e99859c87f36fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 01/17] fix: event_t::reset changes the signal count under the
 lock

reset() stored 0 without the lock; between the two halves of try_wait_one()
(fetch_add(-1) ... fetch_add(+1)) that left a stored signal nobody had sent.
---
 source/event_v2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 28b9d00..f2fc113 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -203,6 +203,7 @@ namespace librf
 
 		LIBRF_API void event_v2_impl::reset() noexcept
 		{
+			scoped_lock<lock_type> lock_(_lock);
 			_counter.store(0, std::memory_order_release);
 		}
 
-- 
2.43.0


From d5f324bae466290f86c184e5bfbb2ab74c6a4a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 02/17] fix: wait_all timeout takes no event lock while it
 holds its own lock

state_event_all_t::on_timeout() locked the state and then each event, while
signal() locks the event and then the state: two threads could deadlock.
---
 source/event_v2.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index f2fc113..ea4c4e4 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -110,24 +110,24 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_timeout()
 		{
-			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
+			std::vector<sub_state_t> values;
+			{
+				scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
-			if (_counter <= 0) return false;
+				if (_counter <= 0) return false;
+
+				_counter = 0;
+				*_result = false;
+				_thandler.reset();
 
-			_counter = 0;
-			*_result = false;
-			_thandler.reset();
+				values.swap(_values);
+			}
 
-			for (sub_state_t& sub : _values)
+			//signal()先锁事件再锁state，故不能在持有_lock时调用remove_wait_list()
+			for (sub_state_t& sub : values)
 			{
-				if (sub.first != nullptr)
-				{
-					event_v2_impl* evt = sub.second;
-					sub.second = nullptr;
-
-					if (evt != nullptr)
-						evt->remove_wait_list(sub.first);
-				}
+				if (sub.first != nullptr && sub.second != nullptr)
+					sub.second->remove_wait_list(sub.first);
 			}
 
 			assert(this->_scheduler != nullptr);
-- 
2.43.0


From 2d89d9a8196c8e1e3d179f4b111fc37c5923940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 03/17] fix: wait_all releases its state only after unlocking
 the lock inside it

When every event already had a signal, await_suspend2() freed the state while
the batch lock still held its spin lock: the unlock wrote to freed memory.
---
 include/librf/src/event_v2.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 5c7631f..738269c 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -489,6 +489,7 @@ namespace librf
 
 			if (_state->_counter == 0)
 			{
+				lock_.unlock();	//_state->_lock也在其中，须先解锁，再释放_state
 				_state = nullptr;
 				_value = true;
 
-- 
2.43.0


From 060179d61b01ff0c65ae75155ad92e87640ec7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 04/17] fix: stop_state is freed by the last token or callback,
 not by an earlier one

---
 include/librf/src/stop_token.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 9cef883..35bb166 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -46,7 +46,8 @@ struct stop_state
     static constexpr uint64_t kSourceRefIncrement = static_cast<uint64_t>(1u) << 33u;
 
     static constexpr uint64_t kZeroRef = kTokenRefIncrement + kSourceRefIncrement;
-    static constexpr uint64_t kLockedAndZeroRef = kZeroRef + kZeroRef;
+    static constexpr uint64_t kTokenZeroRef = kTokenRefIncrement + kTokenRefIncrement;
+    static constexpr uint64_t kLockedAndTokenZeroRef = kLockedFlag + kTokenZeroRef;
     static constexpr uint64_t kLockAndStopedFlag = kStopRequestedFlag | kLockedFlag;
     static constexpr uint64_t kUnlockAndTokenRefIncrement = kLockedFlag - kTokenRefIncrement;
     static constexpr uint64_t klockAndTokenRefIncrement = kLockedFlag + kTokenRefIncrement;
@@ -123,7 +124,7 @@ struct stop_state
 
     void unlock_and_decrement_token_ref_count() noexcept
     {
-        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLockedAndZeroRef)
+        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLockedAndTokenZeroRef)
         {
             delete this;
         }
@@ -138,7 +139,7 @@ public:
     void remove_token_reference() noexcept
     {
         auto old_state = state_.fetch_sub(kTokenRefIncrement, std::memory_order_acq_rel);
-        if (old_state < kZeroRef)
+        if (old_state < kTokenZeroRef)
         {
             delete this;
         }
-- 
2.43.0


From 799d8449b77b141f522e077d0d333e8576d162f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 05/17] fix: generator_t move assignment destroys the coroutine
 it replaces

---
 include/librf/src/generator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 74f1a86..24d3bff 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -256,8 +256,10 @@ namespace librf
 		generator_t& operator=(generator_t&& right_) noexcept
 		{
 			if (this != std::addressof(right_)) {
-				_Coro = right_._Coro;
-				right_._Coro = nullptr;
+				auto _Old = std::exchange(_Coro, std::exchange(right_._Coro, nullptr));
+				if (_Old) {
+					_Old.destroy();
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From 1bd33920d402c04eab9cecec558c4ff53556cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 06/17] fix: generator_t keeps the value its body returns

---
 include/librf/src/generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 24d3bff..309b2a9 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -145,9 +145,11 @@ namespace librf
 			}
 
 			//template<class = std::enable_if_t<!std::is_same_v<_Ty, void>, _Ty>>
-			void return_value(_Ty const& _Value) noexcept
+			//the operand of co_return is gone before it is read, keep it
+			template<class _Uty = _Ty, class = std::enable_if_t<std::is_convertible_v<_Uty&&, _Ty>>>
+			void return_value(_Uty&& _Value)
 			{
-				_CurrentValue = std::addressof(_Value);
+				_CurrentValue = std::addressof(_ReturnValue.emplace(std::forward<_Uty>(_Value)));
 			}
 			//template<class = std::enable_if_t<std::is_same_v<_Ty, void>, _Ty>>
 			void return_value() noexcept
@@ -216,6 +218,7 @@ namespace librf
 			}
 		private:
 			counted_ptr<state_type> _state = state_generator_t::_Alloc_state();
+			std::optional<_Ty> _ReturnValue;
 		};
 #endif	//DOXYGEN_SKIP_PROPERTY
 
-- 
2.43.0


From 5116b7ab768f5e9782e0113610da72c1fa1f89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 07/17] fix: an exception set on awaitable_t<void> before it is
 awaited is delivered

---
 source/state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/state.cpp b/source/state.cpp
index a6f551c..873095b 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -219,6 +219,7 @@ namespace librf
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
 		this->_exception = std::move(e);
+		this->_has_value.store(result_type::Exception, std::memory_order_release);
 
 		scheduler_t* sch = this->get_scheduler();
 		if (sch != nullptr)
-- 
2.43.0


From 6054710fe7fd35579374b36864cd146e0f8e6cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 08/17] fix: request_stop_all_if_possible calls no stop
 callback while it holds the lock of the task table

---
 source/scheduler.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index c6232f1..651a900 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -133,10 +133,20 @@ namespace librf
 
 	LIBRF_API void scheduler_t::request_stop_all_if_possible()
 	{
-		scoped_lock<spinlock> __guard(_lock_ready);
+		//停止回调函数和定时器回调函数，可能会再次访问调度器，故不能在加锁的情况下调用
+		std::vector<stop_source> _sources;
+		{
+			scoped_lock<spinlock> __guard(_lock_ready);
+
+			for (auto& kv : this->_ready_task)
+			{
+				if (kv.second->_stop.stop_possible())
+					_sources.push_back(kv.second->_stop);
+			}
+		}
 
-		for (auto& kv : this->_ready_task)
-			kv.second->request_stop_if_possible();
+		for (auto& source : _sources)
+			source.request_stop();
 		//this->_ready_task.clear();
 		this->_timer->clear();
 	}
-- 
2.43.0


From ab434ddb5710bd584dd1b7c454d825fb67956024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 09/17] fix: a timer handler may clear the timers while
 update() runs it

---
 source/timer.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index db8492b..8fe10a2 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -107,17 +107,18 @@ namespace librf
 		{
 			auto now_ = clock_type::now();
 
-			auto iter = _runing_timers.begin();
-			for (; iter != _runing_timers.end(); ++iter)
+			//回调函数可能会调用clear()，故先移除再调用
+			for (;;)
 			{
-				auto & kv = *iter;
-				if (kv.first > now_)
+				auto iter = _runing_timers.begin();
+				if (iter == _runing_timers.end() || iter->first > now_)
 					break;
 
-				call_target_(kv.second, kv.second->st == timer_target::State::Invalid);
-			}
+				auto sptr = std::move(iter->second);
+				_runing_timers.erase(iter);
 
-			_runing_timers.erase(_runing_timers.begin(), iter);
+				call_target_(sptr, sptr->st == timer_target::State::Invalid);
+			}
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From e41d3b119add05516464c76f0afb349681f4b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 10/17] fix: timers cleared by the handler of a cancelled one
 do not survive the clear

---
 source/timer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index 8fe10a2..d8c7c47 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -93,8 +93,14 @@ namespace librf
 					{
 						sptr->st = timer_target::State::Runing;
 						_runing_timers.insert({ sptr->tp, sptr });
+						sptr = nullptr;
 					}
-					else
+				}
+
+				//回调函数可能会调用clear()，故等所有未取消的定时器都加入后再调用
+				for (auto& sptr : _atimer)
+				{
+					if (sptr)
 					{
 						assert(sptr->st == timer_target::State::Invalid);
 						call_target_(sptr, true);
-- 
2.43.0


From eb1a5677a0d304ed5bd98f645ebbc2df41980181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 11/17] fix: a task started from a named function object keeps
 its own copy of it

---
 include/librf/src/scheduler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 5b6e68a..71e4fbe 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -69,7 +69,7 @@ namespace librf
 		task_t* operator + (_Ty&& coro)
 		{
 			if constexpr (traits::is_callable_v<_Ty>)
-				return new_task(new task_ctx_impl_t<_Ty>(coro));
+				return new_task(new task_ctx_impl_t<remove_cvref_t<_Ty>>(coro));
 			else
 				return new_task(new task_impl_t<_Ty>(coro));
 		}
-- 
2.43.0


From 692dbd3225cbc40df639368474fbb604db6ec23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 12/17] fix: unlocking a mutex does not touch the task of a
 waiter that has timed out

---
 source/mutex_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 942ed3c..cf1774e 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -157,7 +157,8 @@ namespace librf
 						_wait_awakes.pop_front();
 
 						//先将锁定状态转移到新的state上
-						_owner.store(state->get_root(), std::memory_order_release);
+						//get_parent()即根协程；如果state已经超时，则根协程可能已经销毁，不能用get_root()去访问它
+						_owner.store(state->get_parent(), std::memory_order_release);
 						_counter.fetch_add(1, std::memory_order_acq_rel);
 						
 						if (state->on_notify(this))
-- 
2.43.0


From 6b14a697b3794db0cc4fc0ffdac36806555aa1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 13/17] fix: assigning to a lock guard releases the mutexes it
 held

---
 include/librf/src/mutex_v2.inl | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index fdadfbe..98c450f 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -177,7 +177,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_mutex = std::move(_Right._mutex);
+				_owner = _Right._owner;
+			}
+			return *this;
+		}
 	private:
 		mutex_impl_ptr _mutex;
 		void* _owner;
@@ -522,7 +531,15 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_MAA = std::move(_Right._MAA);
+			}
+			return *this;
+		}
 	};
 
 	template<class... _Mtxs>
-- 
2.43.0


From b8178b7fee95414031ded66b27bd45688112f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 14/17] fix: when_all and when_any finish when operations
 complete before the result is awaited

---
 include/librf/src/when_v2.h | 11 +++++++++--
 source/when_v2.cpp          |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f0752df..eeb69ca 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -70,13 +70,20 @@ namespace librf
 
 			bool await_ready() noexcept
 			{
-				return _state->_counter.load(std::memory_order_relaxed) == 0;
+				return _state->_counter.load(std::memory_order_acquire) == 0;
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			void await_suspend(coroutine_handle<_PromiseT> handler)
+			bool await_suspend(coroutine_handle<_PromiseT> handler)
 			{
+				scoped_lock<lock_type> lock_(_state->_lock);
+
+				//在await_ready之后，所有的可等待对象可能已经完成了
+				if (_state->_counter.load(std::memory_order_acquire) == 0)
+					return false;
+
 				_state->on_await_suspend(handler);
+				return true;
 			}
 
 			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 00370a2..3b77ba6 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -39,9 +39,11 @@ namespace librf
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
 			{
-				assert(this->_scheduler != nullptr);
 				if (this->_coro)
+				{
+					assert(this->_scheduler != nullptr);
 					this->_scheduler->add_generator(this);
+				}
 
 				return true;
 			}
-- 
2.43.0


From b29006a51efe8bea9370f33d672427d871e61c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 15/17] fix: when_all keeps its shared state alive until each
 operation is connected

---
 include/librf/src/when_v2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index eeb69ca..9de888d 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -145,7 +145,7 @@ namespace librf
 		}
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_1(state_when_t* state, _Awaitable task, _Ty& value)
+		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, _Ty& value)
 		{
 			decltype(auto) awaitor = when_real_awaitor(task);
 
@@ -160,7 +160,7 @@ namespace librf
 		using _FuckBoolVectorReference = typename std::vector<_FuckBoolean>::reference;
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_2(state_when_t* state,_Awaitable task, _FuckBoolVectorReference<_Ty> value)
+		future_t<> when_all_connector_2(counted_ptr<state_when_t> state, _Awaitable task, _FuckBoolVectorReference<_Ty> value)
 		{
 			auto&& awaitor = when_real_awaitor(task);
 
-- 
2.43.0


From 08157dc183e26c1f40e03b03a6423c1cc4431f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 16/17] fix: when_all writes the bits of a vector of bool
 results one at a time

---
 include/librf/src/when_v2.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 9de888d..3cd3eed 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -166,6 +166,14 @@ namespace librf
 
 			if constexpr(std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
+			else if constexpr(std::is_same_v<_Ty, bool>)
+			{
+				bool result = co_await awaitor;
+
+				//std::vector<bool>的相邻元素在同一个字里，不同线程上的写入需要互斥
+				scoped_lock<state_when_t::lock_type> lock_(state->_lock);
+				value = result;
+			}
 			else
 				value = co_await awaitor;
 			state->on_notify_one();
-- 
2.43.0


From d6d6850e89e172c10132ff83acadb22535ed0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:57 +0000
Subject: [PATCH 17/17] fix: keep a wait_all state alive until its lock has
 been released

on_notify() schedules the waiting task while the scoped_lock on the
state's own _lock still has to run. The task may continue on another
thread at once and release the last reference, so the unlock wrote to
freed memory.
---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index ea4c4e4..7230673 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -78,6 +78,8 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_notify(event_v2_impl*, intptr_t idx)
 		{
+			//等待者一旦被唤醒，就可能释放本对象，而_lock在其后才解锁
+			counted_ptr<state_event_all_t> keep{ this };
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
 			if (_counter <= 0) return false;
-- 
2.43.0

