// C03: event_t operations against the event contract
#include "vc_event.h"

// ------------------------------------------------------------------ loop contract of the wake-up loops: k dead waiters taken off
static void lc_check() {
	uint64_t k = vc_k();
	vc_assert(all_mode ? n_notified == k : !any_served, "loop: nobody served yet");
	vc_assert(k <= n && (all_mode || k <= m), "loop: only dead waiters skipped");
	vc_assert(counter() == c, "loop: stored signals unchanged");
	R.check(k, n, "loop: the first k waiters are taken off");
}
static void lc_havoc() {
	uint64_t k = vc_k();
	vc_assume(k <= n && (all_mode || k <= m));
	if (all_mode) n_notified = k;
	R.init(&e->_wait_awakes, k, n - k, mk);
}
static void* lc_gen() {
	uint64_t k = vc_k();
	if (vc_split(k == 0)) return nullptr;
	vc_assume(k <= n && (all_mode || k <= m));
	waiter* w = new waiter; w->idx = k - 1; w->others = vc::count("holders"); if (!all_mode) w->notified = true;
	w->_count.store((intptr_t)(w->others + 1)); w->_prev = nullptr;
	return static_cast<SB*>(w);
}
static void lc_chk(void* p) {
	int i = R.find((SB*)p);
	vc_assert(i >= 0, "loop: the current waiter is the one just taken off");
	waiter* w = static_cast<waiter*>((SB*)p);
	vc_assert(w->idx + 1 == vc_k() && (uint64_t)w->_count.load() == w->others + 1, "loop: the current waiter is the one just taken off");
}
static void loops() {
	vc_loop_contract(lc_check, lc_havoc, "wake-up loop");
	vc_loop_ptr(lc_gen, lc_chk);
}

VC_HARNESS(signal) {
	any_event(); loops();
	ev->signal();
	vc_loop_contract(nullptr, nullptr, "");
	fin();
	if (m < n) {
		vc_cover("signal wakes a waiter");
		vc_assert(any_served && served == m, "signal wakes the longest-waiting task that is still waiting");
		vc_assert(counter() == c, "a delivered signal is not stored");
		R.check(m + 1, n, "the tasks behind it keep waiting, in order");
		counts(m + 1);
	} else {
		vc_cover("signal stored");
		vc_assert(!any_served, "nobody is left to wake");
		vc_assert(counter() == c + 1, "a signal nobody waits for is stored");
		R.check(n, n, "no waiter is left");
		counts(n);
	}
}
VC_HARNESS(signal_all) {
	any_event(); all_mode = true; loops();
	ev->signal_all();
	vc_loop_contract(nullptr, nullptr, "");
	fin();
	vc_assert(n_notified == n, "signal_all notifies every waiting task");
	vc_assert(counter() == c, "signal_all stores nothing");
	R.check(n, n, "no waiter is left");
	counts(n);
	vc_cover("signal_all");
}
VC_HARNESS(reset) {
	any_event();
	ev->reset();
	fin();
	vc_assert(counter() == 0, "reset drops the stored signals");
	R.check(0, n, "reset leaves the waiting tasks alone");
	vc_assert(n_notified == 0 && vc::nev == 0, "reset wakes nobody");
	vc_cover("reset");
}
VC_HARNESS(ctor) {
	bool init_ = vc::b("initially");
	event_t* x = new event_t(init_);
	vc_assert((uint64_t)x->_event->_counter.load() == (init_ ? 1u : 0u), "a new event holds one signal if asked to, none otherwise");
	vc_assert(x->_event->_wait_awakes._header == nullptr && x->_event->_wait_awakes._tailer == nullptr, "nobody waits for a new event");
	vc_assert(!vc_held(&x->_event->_lock), "no lock is kept");
	vc_cover("ctor");
}

// ------------------------------------------------------------------ wait
template<class AW> static void consumed(bool) {
	vc_assert(c > 0, "a wait completes at once only when a signal is stored");
	vc_assert(counter() == c - 1, "a wait consumes exactly one stored signal");
	vc_assert(n == 0 && vc::nev == 0, "a wait that completes wakes nobody");
	R.check(0, n, "a wait that completes leaves the waiting tasks alone");
}
static scheduler_t* sch;
static event_t::awaiter make(event_t* x) { return x->wait(); }
static int64_t due;
static event_t::timeout_awaiter make_t(event_t* x) {
	due = (int64_t)vc::u64("due");
	return x->wait_until(std::chrono::system_clock::time_point(std::chrono::system_clock::duration(due)));
}
template<bool TM, class AW> static void ready_(AW* aw) {
	bool r = aw->await_ready();
	fin();
	if (r) {
		vc_cover("wait consumes a stored signal");
		consumed<AW>(true);
		uint64_t c2 = counter();
		vc_assert(aw->await_resume(), "a wait that got its signal returns true");
		vc_atomhook(hook); vc::on_acquire = nullptr;
		delete aw;
		vc_assert(counter() == c2, "a finished wait takes nothing more");
		R.check(0, n, "a finished wait takes nothing more");
	} else {
		vc_cover("wait not ready");
		same();
	}
	vc_assert(vc::n_timers == 0, "a wait that completes at once registers no timer");
}
template<bool TM, class AW> static void suspend_(AW* aw) {
	auto* fr = vc::task_frame<promise_t<int>>(sch);
	bool s = aw->await_suspend(vc::handle(fr));
	fin();
	vc_assert(vc::resumes == 0, "nobody is resumed inside the operation");
	if (!s) {
		vc_cover("suspending wait finds a signal");
		consumed<AW>(true);
		vc_assert(aw->await_resume(), "a wait that got its signal returns true");
		vc_assert(vc::n_timers == 0, "a wait that completes at once registers no timer");
	} else {
		vc_cover("task waits");
		vc_assert(c == 0 && counter() == 0, "a task waits only when no signal is stored");
		auto* st = aw->_state.get();
		vc_assert(st != nullptr && st->_scheduler == sch && st->_coro.address() == (void*)fr, "the waiting task is registered with its coroutine and scheduler");
		vc_assert(st->_value.load() == &aw->_event && aw->_event == e, "the waiting task is registered with its result place");
		R.check_app(0, n, static_cast<SB*>(st), "a new waiter waits behind the others");
		vc_assert((uint64_t)static_cast<SB*>(st)->_count.load() >= 3, "the list and the awaiter hold the waiter");
		vc_assert(vc::nev == 0 && n_notified == 0, "starting to wait wakes nobody");
		if (TM) {
			vc_assert(vc::n_timers == 1 && vc::timer_tp == due && vc::timer_mgr == (void*)sch->_timer.get(), "a timed wait registers one timer, with its due time, at its scheduler");
		} else vc_assert(vc::n_timers == 0, "an untimed wait registers no timer");
	}
}
VC_HARNESS(ready) { sch = vc::timed_scheduler("sch"); any_event(); ready_<false>(new event_t::awaiter(make(ev))); }
VC_HARNESS(ready_timed) { sch = vc::timed_scheduler("sch"); any_event(); ready_<true>(new event_t::timeout_awaiter(make_t(ev))); }
VC_HARNESS(suspend) { sch = vc::timed_scheduler("sch"); any_event(); suspend_<false>(new event_t::awaiter(make(ev))); }
VC_HARNESS(suspend_timed) { sch = vc::timed_scheduler("sch"); any_event(); suspend_<true>(new event_t::timeout_awaiter(make_t(ev))); }
// a waiting task's awaiter is destroyed: its waiter leaves the list, wherever it stands; if a signal has taken it off, nothing changes
VC_HARNESS(abandon_waiting) {
	sch = vc::timed_scheduler("sch"); any_event();
	vc::rely_off();
	auto* aw = new event_t::awaiter(make(ev));
	auto* st = new detail::state_event_t(aw->_event);
	aw->_state = st; st->_scheduler = sch;
	static uint64_t at; at = vc::u64("position");
	n = vc::count("waiting"); vc_assume(at < n); c = 0; m = n; e->_counter.store(0);
	static SB* node; node = st;
	R.init_with(&e->_wait_awakes, 0, n, at, [](uint64_t i, void* u) -> SB* { return u && i == at ? (SB*)u : mk(i, nullptr); }, node);
	st->_count.store((intptr_t)(1 + R.refs(at)));
	delete aw;
	vc_atomhook(nullptr);
	vc_assert(vc_nheld() == 0, "no lock is kept");
	vc_assert(vc_freed(st), "the waiter of an abandoned wait is released");
	R.check(0, n, at, true, nullptr, 0, "only the abandoned waiter leaves the list");
	vc_assert(counter() == 0 && n_notified == 0 && vc::nev == 0, "abandoning a wait has no other effect");
	vc_cover("abandon");
}
VC_HARNESS(abandon_notified) {
	sch = vc::timed_scheduler("sch"); any_event();
	auto* aw = new event_t::awaiter(make(ev));
	auto* st = new detail::state_event_t(aw->_event);
	aw->_state = st; st->_scheduler = sch; st->_prev = nullptr; st->_value.store(nullptr);
	delete aw;
	fin();
	vc_assert(vc_freed(st), "the waiter of a finished wait is released");
	R.check(0, n, "a finished wait leaves the other waiters alone");
	vc_assert(counter() == c && n_notified == 0 && vc::nev == 0, "a finished wait has no further effect");
	vc_cover("abandon");
}
VC_HARNESS(valid_wait_resume) {
	// co_await on a woken wait returns true, on a timed-out one false (the event pointer was cleared)
	any_event(); fin();
	auto* aw = new event_t::awaiter(make(ev));
	bool fired = vc::b("fired");
	if (!fired) aw->_event = nullptr;
	vc_assert(aw->await_resume() == fired, "the wait returns whether the signal arrived");
	vc_cover("resume");
}
