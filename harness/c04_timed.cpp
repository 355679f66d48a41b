// C04: the outcome of a timed wait is decided once: every interleaving of the signal side and the time-out side
#include "vc_event.h"
struct st_t : detail::state_event_t {};   // access helper

static scheduler_t* sch; static bool gone; static event_t::timeout_awaiter* aw; static detail::state_event_t* st;
static uint64_t at; static bool listed; static int64_t due;
static SB* node;
static event_t* ev2; static E* e2;
// when the task is handed to its scheduler it may run at once on another thread and destroy the awaiter
static void added(scheduler_t* s, state_base_t* b) {
	vc_assert(s == sch && b == static_cast<state_base_t*>(st), "the waiting task is scheduled on its scheduler");
	vc_assert(vc::n_added == 1, "the waiting task is scheduled once");
	vc_assert(st->_value.load() == nullptr, "the outcome is decided before the task is scheduled");
	gone = aw->_event == e;
	vc_kill(aw);
}
static bool ext;   // another thread decided the outcome first
static void env(void* p, int kind, int) {
	hook(p, kind, 0);
	if (p == (void*)&st->_value && kind == 0 && !ext && st->_value.load() != nullptr && vc_choose("the other side wins the race")) {
		ext = true;
		st->_value.store(nullptr);
		vc_kill(aw);   // the winner has scheduled the task, which may have finished with the awaiter
	}
}
// a timed wait that is waiting (or already decided), at any place of the list or already taken off it
static void waiting(bool may_unlisted) {
	sch = vc::timed_scheduler("sch"); any_event(); vc::rely_off();
	aw = new event_t::timeout_awaiter(std::chrono::system_clock::time_point(), e);
	st = new detail::state_event_t(aw->_event);
	aw->_state = st; st->_scheduler = sch; st->_coro = coroutine_handle<>::from_address(vc::coro());
	listed = !may_unlisted || vc_choose("still listed");
	c = vc::count("stored_signals");
	if (listed) {
		at = vc::u64("position"); n = vc::count("waiting"); vc_assume(at < n); c = 0; m = n;
		node = st;
		R.init_with(&e->_wait_awakes, 0, n, at, [](uint64_t i, void* u) -> SB* { return u && i == at ? (SB*)u : mk(i, nullptr); }, node);
	} else {
		n = vc::count("waiting"); m = n; vc_assume(n == 0 || c == 0);
		R.init(&e->_wait_awakes, 0, n, mk); st->_prev = nullptr;
	}
	e->_counter.store((intptr_t)c);
	st->_count.store((intptr_t)(2 + (listed ? R.refs(at) : 0)));   // awaiter + the caller (+ the list)
	vc::on_added = added;
	vc_atomhook(env);
}
static void end_() { vc_atomhook(nullptr); vc_assert(vc_nheld() == 0, "no lock is kept"); vc_assert(vc::resumes == 0, "nobody is resumed inside the operation"); }

VC_HARNESS(notify) {
	waiting(true);
	if (vc_choose("already decided")) { st->_value.store(nullptr); ext = true; vc_kill(aw); }
	bool won = st->on_notify(e);
	end_();
	vc_assert(won == !ext, "the signal is accepted exactly when it decides the outcome");
	vc_assert(vc::n_added == (won ? 1u : 0u), "the task is scheduled exactly when the signal decides");
	if (won) { vc_cover("signal wins"); vc_assert(gone, "a wait decided by a signal returns true"); vc_assert(vc::n_stop == 1 && vc::stopped == &st->_thandler, "the timer of a woken wait is stopped"); }
	else { vc_cover("signal loses"); vc_assert(vc::n_stop == 0, "a losing signal has no effect"); }
	vc_assert(counter() == c, "the waiter does not touch the stored signals");
}
VC_HARNESS(timeout) {
	waiting(true);
	if (vc_choose("already decided")) { st->_value.store(nullptr); ext = true; vc_kill(aw); }
	bool won = st->on_timeout();
	end_();
	vc_assert(won == !ext, "the time-out is accepted exactly when it decides the outcome");
	vc_assert(vc::n_added == (won ? 1u : 0u), "the task is scheduled exactly when the time-out decides");
	vc_assert(counter() == c && n_notified == 0, "a time-out leaves the stored signals and the other waiters alone");
	if (won) {
		vc_cover("time-out wins");
		vc_assert(!gone, "a wait decided by its time-out returns false");
		if (listed) { vc_cover("time-out leaves the list"); R.check(0, n, at, true, nullptr, 0, "a timed-out waiter leaves the list, the others keep their order"); }
		else R.check(0, n, "a waiter that a signal has already taken off leaves the list alone");
	} else {
		vc_cover("time-out loses");
		if (listed) R.check(0, n, "a losing time-out has no effect"); else R.check(0, n, "a losing time-out has no effect");
	}
}
// the registered timer: elapsed -> the wait times out; cancelled -> nothing happens; and both orders with a signal
static int n_fin; static bool outcome;
static void added2(scheduler_t* s, state_base_t* b) {
	vc_assert(s == sch && b == static_cast<state_base_t*>(st), "the waiting task is scheduled on its scheduler");
	vc_assert(++n_fin == 1, "the waiting task is scheduled once");
	outcome = aw->await_resume();
}
VC_HARNESS(timer_callback) {
	sch = vc::timed_scheduler("sch"); any_event(); vc::rely_off();
	vc_assume(c == 0);
	auto* fr = vc::task_frame<promise_t<int>>(sch);
	due = (int64_t)vc::u64("due");
	aw = new event_t::timeout_awaiter(ev->wait_until(std::chrono::system_clock::time_point(std::chrono::system_clock::duration(due))));
	bool s = aw->await_suspend(vc::handle(fr));
	vc_assert(s && vc::n_timers == 1, "the timed wait waits");
	st = aw->_state.get();
	vc::on_added = added2;
	auto& cb = (*vc::last_target)->cb;
	bool first_signal = vc_choose("signal first");
	bool canceled = vc_choose("timer cancelled");
	bool acc1 = false;
	if (first_signal) acc1 = st->on_notify(e);
	cb(canceled);
	bool acc2 = st->on_notify(e);
	end_();
	vc_assert(n_fin <= 1, "a timed wait ends once");
	if (first_signal) { vc_cover("signal then timer"); vc_assert(acc1 && !acc2 && n_fin == 1 && outcome, "a signal before the time-out decides; the timer then has no effect"); }
	else if (!canceled) { vc_cover("timer then signal"); vc_assert(!acc2 && n_fin == 1 && !outcome, "the time-out decides; a later signal is refused and kept for someone else"); R.check(0, n, "a timed-out waiter leaves the list"); }
	else { vc_cover("timer cancelled"); vc_assert(acc2 && n_fin == 1 && outcome, "a cancelled timer decides nothing"); }
	vc_assert(counter() == 0, "no signal is invented or lost");
}
// the time of a timed wait: now + duration, or the time point itself
static int64_t now_v; static int n_now;
static std::chrono::system_clock::time_point clock_now() { ++n_now; return std::chrono::system_clock::time_point(std::chrono::system_clock::duration(now_v)); }
VC_CONTRACT("std::chrono::(_V2::)?system_clock::now\\(\\)", clock_now, "trusted")
VC_HARNESS(due_times) {
	using namespace std::chrono;
	sch = vc::timed_scheduler("sch"); any_event(); now_v = (int64_t)vc::u64("now"); vc_assume(now_v >= 0 && now_v < (1ll << 61)); n_now = 0;
	auto is = [](event_t::timeout_awaiter a, int64_t want) { vc_assert(a._tp.time_since_epoch().count() == want, "a timed wait ends at the time asked for"); vc_assert(a._event == e, "a wait is for its event"); a._event = nullptr; };
	int64_t d = (int64_t)vc::u64("d"); vc_assume(d > -(1ll << 61) && d < (1ll << 61)); int k = (int)vc::u32("k");
	if (vc_choose("duration")) {
		is(ev->wait_for(nanoseconds(d)), now_v + d); is(ev->wait_for(duration<int, std::milli>(k)), now_v + (int64_t)k * 1000000); is(ev->wait_for(duration<int>(k)), now_v + (int64_t)k * 1000000000); is(ev->wait_for(microseconds(k)), now_v + (int64_t)k * 1000);
		vc_assert(n_now == 4, "a duration counts from the call"); vc_cover("duration");
	} else {
		is(ev->wait_until(system_clock::time_point(nanoseconds(d))), d); is(ev->wait_until(time_point<system_clock, seconds>(seconds(k))), (int64_t)k * 1000000000);
		is(ev->wait_until(time_point<system_clock, milliseconds>(milliseconds(k))), (int64_t)k * 1000000); vc_cover("time point");
	}
	R.check(0, n, "making a timed wait waits for nothing"); vc_assert(counter() == c, "making a timed wait consumes nothing");
}
