// C21: sleeping.  The timer is its contract (C09): a handler added for time t is called once, with false not before t, or with true
// when it is cancelled.  Each way of sleeping registers one such handler and the task goes on exactly when it has been called.
#include "vc_timer.h"
static const char* err_str(error_code, const char*) { return "error"; }
VC_CONTRACT("librf::get_error_string\\(.*\\)", err_str, "trusted")
using CK = std::chrono::system_clock; using KEY = CK::time_point; using SF = state_future_t;
static KEY key_of(int64_t c) { return KEY(CK::duration(c)); }
static int64_t now_v; static int n_now;
static int64_t now_stub() { int64_t x = (int64_t)vc::u64("now"); vc_assume(x > 0 && x < (1ll << 61) && (n_now == 0 || x >= now_v)); now_v = x; ++n_now; return x; }
VC_CONTRACT("std::chrono::(_V2::)?system_clock::now\\(\\)", now_stub, "trusted")
static int64_t some(const char* n) { int64_t d = (int64_t)vc::u64(n); vc_assume(d > -(1ll << 61) && d < (1ll << 61)); return d; }
static scheduler_t* sch;
static timer_manager* first_mgr;
static void start() { n_now = 0; vc::n_timers = 0; vc::last_target = nullptr; sch = vc::timed_scheduler("sch"); first_mgr = sch->_timer.get(); }
static void fire_GHOST(bool c) { auto cb = std::move((*vc::last_target)->cb); if (vc_choose("the manager lets go first")) { delete vc::last_target; vc::last_target = nullptr; } cb(c); }
static void drop() { if (vc::last_target) delete vc::last_target; vc::last_target = nullptr; sch->_timer.reset(); }
static int64_t want;
template<class F> static void registered(F f) {
	vc_assert(vc::n_timers == 1 && vc::timer_mgr == first_mgr, "a sleep registers one timer, with its scheduler"); vc_assert(vc::timer_tp == want, "a sleep lasts until the time asked for");
}
// ------------------------------------------------------------------ with a scheduler given
static future_t<> sleep_GHOST(int kind) {
	switch (kind) {
	case 0: { want = some("tp"); return sleep_until_(key_of(want), *sch); }
	case 1: { int64_t d = some("dt"); auto f = sleep_for_(CK::duration(d), *sch); want = now_v + d; return f; }
	case 2: { int64_t d = some("dt"); auto f = sleep_for(CK::duration(d), *sch); want = now_v + d; return f; }
	case 3: { int d = (int)vc::u32("ms"); auto f = sleep_for(std::chrono::duration<int, std::milli>(d), *sch); want = now_v + (int64_t)d * 1000000; return f; }
	case 4: { want = some("tp"); return sleep_until(key_of(want), *sch); }
	default: { int64_t s = (int)vc::u32("s"); want = s * 1000000000; return sleep_until(std::chrono::time_point<CK, std::chrono::seconds>(std::chrono::seconds(s)), *sch); }
	}
}
static void given(int kind) {
	start(); uint64_t mark = vc_mark();
	{
		future_t<> f = sleep_GHOST(kind); auto* st = static_cast<state_t<void>*>(f._state.get()); registered(0);
		vc_assert(!f.await_ready() && vc::n_added == 0, "a sleep is not over before its timer is called");
		bool cancelled = vc_choose("cancelled"), waits = vc_choose("waited for first");
		auto* tf = vc::task_frame<promise_t<int>>(sch);
		if (waits) { f.await_suspend(vc::handle(tf)); vc_assert(vc::n_added == 0, "a sleeping task is not resumed before its timer is called"); }
		fire_GHOST(cancelled);
		vc_assert(vc::n_added == (waits ? 1u : 0u), "a sleeping task is resumed once, when its timer is called");
		if (waits) vc_assert(vc::evs[vc::nev - 1].st == st && vc::evs[vc::nev - 1].sch == sch, "a sleeping task is resumed on its scheduler"); else vc_assert(f.await_ready(), "a sleep that is over is ready");
		int r = 0; try { f.await_resume(); r = 1; } catch (canceled_exception& e) { vc_assert(e._error == error_code::timer_canceled, "a cancelled sleep throws timer_canceled"); r = 2; } catch (...) { r = 3; }
		vc_assert(r == (cancelled ? 2 : 1), "a sleep returns when its time has come and throws a cancellation when its timer is cancelled");
		if (cancelled) vc_cover("cancelled"); else vc_cover("elapsed");
		tf->promise.~promise_t<int>();
	}
	drop(); vc_assert(vc_leaks(mark) == 0, "a sleep leaves nothing behind");
}
VC_HARNESS(until_core) { given(0); }
VC_HARNESS(for_core) { given(1); }
VC_HARNESS(for_given) { given(2); }
VC_HARNESS(for_ms_given) { given(3); }
VC_HARNESS(until_given) { given(4); }
VC_HARNESS(until_s_given) { given(5); }
// nobody waits: the timer still ends without waking anyone
VC_HARNESS(forgotten) {
	start(); uint64_t mark = vc_mark();
	{ future_t<> f = sleep_GHOST(0); } fire_GHOST(vc_choose("cancelled")); vc_assert(vc::n_added == 0, "nobody is woken for a sleep nobody waits for");
	drop(); vc_assert(vc_leaks(mark) == 0, "a sleep leaves nothing behind"); vc_cover("forgotten");
}
// ------------------------------------------------------------------ whole tasks: compiled bodies, first-in first-out scheduler
static counted_ptr<state_base_t> rq[16]; static int rq_h, rq_t; static counted_ptr<state_base_t> registry; static int n_retired;
static void q_add_GHOST(scheduler_t* s, state_base_t* st) { vc_assert(s == sch, "a task stays on its scheduler"); vc_assert(rq_t < 16, "bounded"); rq[rq_t++] = st; }
static void q_final_GHOST(scheduler_t* s, state_base_t* st) { vc_assert(s == sch, "a task stays on its scheduler"); if (registry.get() == st) { ++n_retired; registry.reset(); } }
static void run_GHOST() { while (rq_h < rq_t) { counted_ptr<state_base_t> s(std::move(rq[rq_h++])); s->resume(); } }
static int woke, cancels, other;
static future_t<> sleeper(int kind, int64_t d) {
	try {
		switch (kind) {
		case 0: co_await sleep_for(CK::duration(d)); break;
		case 1: co_await sleep_for(std::chrono::duration<int, std::milli>((int)d)); break;
		case 2: co_await sleep_until(key_of(d)); break;
		case 3: co_await sleep_until(std::chrono::time_point<CK, std::chrono::seconds>(std::chrono::seconds(d))); break;
		case 4: co_await CK::duration(d); break;
		case 5: co_await std::chrono::duration<int, std::milli>((int)d); break;
		}
		++woke;
	} catch (canceled_exception& e) { if (e._error == error_code::timer_canceled) ++cancels; else ++other; } catch (...) { ++other; }
}
static void start_GHOST(future_t<>&& f) { registry = f._state.get(); registry->set_scheduler(sch); if (registry->has_handler()) q_add_GHOST(sch, registry.get()); }
static void whole(int kind) {
	start(); uint64_t mark = vc_mark(); vc::on_added = q_add_GHOST; vc::on_final = q_final_GHOST;
	bool small = kind == 1 || kind == 3 || kind == 5; int64_t d = small ? (int64_t)(int)vc::u32("d") : some("d");
	start_GHOST(sleeper(kind, d)); vc_assert(vc::n_timers == 0, "a task does not run before its scheduler runs it");
	run_GHOST();
	want = kind == 0 || kind == 4 ? now_v + d : kind == 1 || kind == 5 ? now_v + d * 1000000 : kind == 2 ? d : d * 1000000000; registered(0);
	vc_assert(woke + cancels + other == 0 && n_retired == 0, "a sleeping task does not go on before its timer is called");
	bool cancelled = vc_choose("cancelled"); fire_GHOST(cancelled);
	vc_assert(woke + cancels + other == 0, "a sleeping task is resumed by its scheduler only"); run_GHOST();
	vc_assert(woke == (cancelled ? 0 : 1) && cancels == (cancelled ? 1 : 0) && other == 0, "a sleeping task goes on once: its time has come, or a cancellation exception"); vc_assert(n_retired == 1, "the task goes on to its end");
	drop(); vc_assert(vc_leaks(mark) == 0, "a sleep leaves nothing behind"); vc_cover("whole");
}
VC_HARNESS(task_for) { whole(0); }
VC_HARNESS(task_for_ms) { whole(1); }
VC_HARNESS(task_until) { whole(2); }
VC_HARNESS(task_until_s) { whole(3); }
VC_HARNESS(task_await) { whole(4); }
VC_HARNESS(task_await_ms) { whole(5); }
