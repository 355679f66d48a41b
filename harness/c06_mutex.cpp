// C06 / C07: mutex_t against the mutex contract, from every mutex state that satisfies its invariant
//   (a mutex without owner has depth 0 and nobody waiting; one with owner has depth >= 1), any number of waiting tasks of which any
// have already timed out, and under every interference allowed by the lock.
#include "vc_sched.h"
#include "vc_timer.h"
#include "vc_stdlist.h"
#include "vc_rely.h"
using namespace librf;
using E = detail::mutex_v2_impl; using SM = detail::state_mutex_t; using SP = counted_ptr<SM>;
static mutex_t* mx; static E* e;
static state_base_t* me;                       // the caller of the operation
static void* other; static int kind;           // owner: 0 nobody, 1 the caller, 2 somebody else
static uint64_t n, m, c;                       // waiting tasks, the first one that has not timed out, depth
static scheduler_t* sch;
// ------------------------------------------------------------------ waiting tasks
struct root_t : state_base_t { void resume() override {} bool has_handler() const noexcept override { return true; } };
static root_t* new_root() { root_t* r = new root_t; r->_count.store(1); return r; }
struct waiter final : SM {
	uint64_t idx, others; E* result; state_base_t* rt;
	waiter(E*& v) : SM(v) {}
	~waiter() { vc_assert(others == 0, "a waiter is released only when nobody else holds it"); }
};
static uint64_t n_served; static waiter* served; static bool self_waits, all_live;
static E* dummy; static waiter* made_dead;
static void mk(uint64_t i, SP* cell) {
	waiter* w = new waiter(dummy); w->idx = i; w->_scheduler = sch; w->_coro = coroutine_handle<>::from_address(vc::coro());
	w->others = vc::count("holders");
	if (i < m) { w->_value.store(nullptr); w->rt = new_root(); w->_root = w->rt; vc_kill(w->rt); w->rt = nullptr; made_dead = w; }     // timed out: its task may be gone
	else {
		w->result = e; w->_value.store(&w->result); vc_assume(w->others >= 1);
		w->rt = self_waits && i == m ? me : (state_base_t*)new_root(); w->_root = w->rt;
	}
	w->_count.store((intptr_t)(w->others + 1)); cell->_p = w;
}
static vc::vslist<SP> R;
static void init() {
	kind = vc_choose("free") ? 0 : vc_choose("owned by the caller") ? 1 : 2;
	n = vc::count("waiting"); m = vc::count("first_live"); c = vc::count("depth"); vc_assume(m <= n);
	if (kind == 0) vc_assume(c == 0 && n == 0); else vc_assume(c >= 1);
	e->_owner.store(kind == 0 ? nullptr : kind == 1 ? (void*)me : other); e->_counter.store((intptr_t)c);
	R.init(&e->_wait_awakes, 0, n, mk); n_served = 0; served = nullptr;
}
static void* owner() { return e->_owner.load(); }
static uint64_t depth() { return (uint64_t)e->_counter.load(); }
static void unchanged(const char* w) {
	vc_assert(owner() == (kind == 0 ? nullptr : kind == 1 ? (void*)me : other) && depth() == c, w); R.check(0, n, w);
	vc_assert(n_served == 0 && vc::n_stop == 0 && vc::n_timers == 0, w);
}
static void same() { unchanged("one critical section changes a mutex"); }
static void hook(void* p, int k, int) {
	if ((p == (void*)&e->_owner || p == (void*)&e->_counter) && k != 0) vc_assert(vc_held(&e->_lock), "owner and depth change only in the critical section");
}
static void added(scheduler_t* s, state_base_t* b) {
	waiter* w = (waiter*)static_cast<SM*>(b); ++n_served; served = w;
	vc_assert(n_served == 1, "an unlock wakes one task"); vc_assert(s == sch && w->_scheduler == s, "the woken task is scheduled on its scheduler");
	vc_assert(w->result == e && w->_value.load() == nullptr, "the woken task is told that it owns the mutex");
	vc_assert(vc_held(&e->_lock) || owner() == w->rt, "the woken task owns the mutex");
}
static void any_mutex() {
	sch = vc::timed_scheduler("sch"); mx = new mutex_t; e = mx->_mutex.get(); other = vc::any_scheduler("someone else"); self_waits = vc_choose("the first live waiter belongs to the caller");
	vc::rely(&e->_lock, init, same); vc_guard(&e->_wait_awakes, sizeof(e->_wait_awakes), &e->_lock); vc_atomhook(hook); vc::on_added = added;
}
static void fin() { vc_atomhook(nullptr); vc::rely_off(); vc_assert(vc_nheld() == 0, "no lock is kept"); vc_assert(vc::resumes == 0, "nobody is resumed inside the operation"); }
static void start() { me = new_root(); any_mutex(); }
static void counts(uint64_t lo) {
	for (int i = 0; i < R.ntab; ++i) {
		if (vc_freed(R.tab[i].p)) continue;
		waiter* w = (waiter*)(*R.val(R.tab[i].p)).get(); if (w && R.tab[i].idx >= lo) vc_assert((uint64_t)w->_count.load() == w->others + 1, "references to a waiter balance");
	}
}
// ------------------------------------------------------------------ C06: locking
static void locked(bool got) {
	if (kind == 0) { vc_cover("free"); vc_assert(got && owner() == me && depth() == 1, "locking a free mutex takes it"); }
	else if (kind == 1) { vc_cover("owned by the caller"); vc_assert(got && owner() == me && depth() == c + 1, "its owner may lock a mutex again"); }
	else { vc_cover("owned by somebody else"); vc_assert(!got && owner() == other && depth() == c, "a mutex owned by somebody else is refused and stays as it is"); }
	R.check(0, n, "locking leaves the waiting tasks alone"); vc_assert(n_served == 0, "locking wakes nobody");
}
VC_HARNESS(try_lock) { start(); bool r = mx->try_lock((void*)me); fin(); locked(r); }
VC_HARNESS(try_lockless) { start(); e->_lock.lock(); bool r = e->try_lock_lockless(me); e->_lock.unlock(); fin(); locked(r); }
VC_HARNESS(is_locked) { start(); bool r = mx->is_locked(); fin(); vc_assert(r == (kind != 0), "a mutex is locked exactly when it has an owner"); unchanged("asking changes nothing"); vc_cover("asked"); }
static void spin_check() { vc_assert(vc_nheld() == 0, "waiting for a mutex keeps no lock"); if (vc::rely_n > 0) same(); }
static void spin_havoc() { vc::rely_n = 0; init(); }
VC_HARNESS(lock_address) {
	start(); vc_loop_contract(spin_check, spin_havoc, "lock until succeed");
	mx->lock((void*)me); vc_loop_contract(nullptr, nullptr, ""); fin(); locked(true);
}
static int64_t lastnow;
static std::chrono::system_clock::time_point clock_now() { int64_t t = (int64_t)vc::u64("now"); vc_assume(t >= lastnow && t < (1ll << 61)); lastnow = t; return std::chrono::system_clock::time_point(std::chrono::system_clock::duration(t)); }
VC_CONTRACT("std::chrono::(_V2::)?system_clock::now\\(\\)", clock_now, "trusted")
VC_HARNESS(lock_address_until) {
	start(); lastnow = 0; int64_t tp = (int64_t)vc::u64("due"); vc_assume(tp >= 0 && tp < (1ll << 61));
	vc_loop_contract(spin_check, [] { spin_havoc(); lastnow = (int64_t)vc::u64("clock"); vc_assume(lastnow >= 0 && lastnow < (1ll << 61)); }, "try lock until");
	bool r = e->try_lock_until(std::chrono::system_clock::time_point(std::chrono::system_clock::duration(tp)), me);
	vc_loop_contract(nullptr, nullptr, ""); fin(); locked(r);
	if (!r) { vc_cover("given up"); vc_assert(lastnow > tp, "a timed attempt gives up only after its time"); }
}
VC_HARNESS(lock_address_for) {
	start(); lastnow = 0; int64_t d = (int64_t)vc::u64("duration"); vc_assume(d >= 0 && d < (1ll << 60));
	static int64_t first; first = (int64_t)vc::u64("clock at call"); vc_assume(first >= 0 && first < (1ll << 60)); lastnow = first;
	vc_loop_contract(spin_check, [] { spin_havoc(); lastnow = (int64_t)vc::u64("clock"); vc_assume(lastnow >= first && lastnow < (1ll << 61)); }, "try lock until");
	bool r = mx->try_lock_for(std::chrono::nanoseconds(d), (void*)me);
	vc_loop_contract(nullptr, nullptr, ""); fin(); locked(r);
	if (!r) { vc_cover("given up"); vc_assert(lastnow > first + d, "a timed attempt gives up only after its time"); }
}
// ------------------------------------------------------------------ C06 / C07: unlocking
static void wake_check() {
	uint64_t k = vc_k();
	vc_assert(k <= m, "only waiters that have timed out are passed over"); vc_assert(n_served == 0, "an unlock wakes one task");
	vc_assert(owner() == nullptr && depth() == 0, "a waiter that has timed out does not become owner");
	R.check(k, n, "the first k waiters are taken off");
	if (made_dead && !vc_freed(made_dead) && made_dead->idx + 1 == k) vc_assert((uint64_t)made_dead->_count.load() == made_dead->others, "a waiter that is passed over is released");
}
static void wake_havoc() {
	uint64_t k = vc_k(); vc_assume(k <= m); e->_owner.store(nullptr); e->_counter.store(0); n_served = 0; made_dead = nullptr; R.init(&e->_wait_awakes, k, n - k, mk);
}
static void unlocked() {
	if (kind != 1) { vc_cover("not the owner"); unchanged("unlocking by anyone but the owner changes nothing"); return; }
	if (c > 1) { vc_cover("still locked"); vc_assert(owner() == me && depth() == c - 1, "an owner owns the mutex until it has unlocked it as often as it has locked it"); R.check(0, n, "an inner unlock leaves the waiting tasks alone"); vc_assert(n_served == 0, "an inner unlock wakes nobody"); return; }
	if (m < n) {
		vc_cover("handed over");
		vc_assert(n_served == 1 && served->idx == m, "the last unlock wakes the longest-waiting task that has not timed out");
		vc_assert(owner() == served->rt && depth() == 1, "the last unlock passes the mutex directly to the woken task");
		vc_assert(vc::n_stop == 1 && vc::stopped == &served->_thandler, "the timer of a woken waiter is stopped");
		vc_assert((uint64_t)served->_count.load() == served->others, "the list gives up its reference to the woken waiter");
		R.check(m + 1, n, "the tasks behind it keep waiting, in order"); counts(m + 1);
	} else {
		vc_cover("freed"); vc_assert(n_served == 0 && owner() == nullptr && depth() == 0, "a mutex becomes free when no live task waits for it"); R.check(n, n, "no waiter is left");
	}
}
VC_HARNESS(unlock) {
	start(); vc_loop_contract(wake_check, wake_havoc, "wake-up loop"); bool r = e->unlock(me); vc_loop_contract(nullptr, nullptr, ""); fin();
	vc_assert(r == (kind == 1), "an unlock says whether the caller owned the mutex"); unlocked();
}
VC_HARNESS(unlock_address) { start(); vc_loop_contract(wake_check, wake_havoc, "wake-up loop"); mx->unlock((void*)me); vc_loop_contract(nullptr, nullptr, ""); fin(); unlocked(); }
// ------------------------------------------------------------------ awaiters: what a task does
using SF = state_future_t; static vc::frame<promise_t<int>>* fr;
static void task() {
	fr = vc::task_frame<promise_t<int>>(nullptr); SF* ts = fr->promise.get_state(); me = ts;
	if (vc_choose("nested task")) {
		SF* r = SF::_Alloc_state<state_t<int>>(false); r->lock(); ts->_parent = r; me = r;
		if (vc_choose("deeper")) { SF* r2 = SF::_Alloc_state<state_t<int>>(false); r2->lock(); r->_parent = r2; me = r2; }
	}
	any_mutex(); me->_scheduler = sch; if (vc_choose("knows its scheduler")) ts->_scheduler = sch;
}
static SM* waiting; static bool is_new(SP* p, int) { return p->get() == waiting; }
static int64_t due;
template<bool TM, class AW> static bool suspend_(AW* aw) {
	bool rd = aw->await_ready(); bool s = !rd && aw->await_suspend(vc::handle(fr)); fin();
	if (!s) { locked(true); vc_assert(vc::n_timers == 0, "a lock that is taken at once registers no timer"); return false; }
	vc_cover("waits"); vc_assert(kind == 2, "a task waits only for a mutex somebody else owns"); vc_assert(owner() == other && depth() == c, "waiting does not change the owner");
	waiting = aw->_state.get(); vc_assert(waiting && waiting->_scheduler == sch && waiting->_coro.address() == (void*)fr, "the waiting task is registered with its coroutine and its scheduler");
	vc_assert(waiting->get_root() == me && waiting->get_parent() == me, "a waiting task will own the mutex as its root task"); vc_assert(waiting->_value.load() == &aw->_mutex && aw->_mutex == e, "the waiting task is registered with its result place");
	vc_assert(waiting->has_handler(), "a waiting task has something to run");
	R.check(0, n, 0, false, 1, is_new, "a new waiter waits behind the others"); vc_assert(n_served == 0, "starting to wait wakes nobody");
	vc_assert(waiting->_count.load() == (TM ? 3 : 2), "the list, the awaiter and the timer hold the waiter");
	if (TM) { vc_assert(vc::n_timers == 1 && vc::timer_tp == due && vc::timer_mgr == (void*)sch->_timer.get(), "a timed wait registers one timer, with its due time, at its scheduler"); }
	else vc_assert(vc::n_timers == 0, "an untimed wait registers no timer");
	return true;
}
VC_HARNESS(await_lock) {
	task(); auto* aw = new mutex_t::awaiter(vc_choose("operator co_await") ? mx->operator co_await() : mx->lock()); suspend_<false>(aw);
	auto g = aw->await_resume(); vc_assert(g._mutex == mx->_mutex && g._owner == (void*)me, "a task that has locked a mutex gets a guard that unlocks it for its root task"); vc_cover("guard");
	g._mutex = nullptr; delete aw;
}
VC_HARNESS(await_manual) { task(); auto* aw = new mutex_t::manual_awaiter(mx->lock(adopt_manual_unlock)); suspend_<false>(aw); aw->await_resume(); delete aw; vc_cover("manual"); }
static mutex_t::timeout_awaiter timed() {
	due = (int64_t)vc::u64("due"); vc_assume(due >= 0 && due < (1ll << 60));
	if (vc_choose("until")) return mx->try_lock_until(std::chrono::system_clock::time_point(std::chrono::system_clock::duration(due)));
	lastnow = 0; auto a = mx->try_lock_for(std::chrono::nanoseconds(due)); due += lastnow; return a;
}
VC_HARNESS(await_timed) {
	task(); auto* aw = new mutex_t::timeout_awaiter(timed()); bool s = suspend_<true>(aw);
	bool out = s && vc_choose("timed out"); if (out) aw->_mutex = nullptr;
	vc_assert(aw->await_resume() == !out, "a timed lock says whether it got the mutex"); delete aw; if (out) vc_cover("timed out"); else vc_cover("got it");
}
VC_HARNESS(await_try) {
	task(); auto* aw = new mutex_t::try_awaiter(mx->try_lock()); bool s = !aw->await_ready() && aw->await_suspend(vc::handle(fr)); vc_assert(!s, "try_lock never waits");
	bool r = aw->await_resume(); fin(); locked(r); delete aw;
}
VC_HARNESS(await_unlock) {
	task(); vc_loop_contract(wake_check, wake_havoc, "wake-up loop");
	auto* aw = new mutex_t::unlock_awaiter(mx->unlock()); bool s = !aw->await_ready() && aw->await_suspend(vc::handle(fr)); vc_assert(!s, "unlock never waits");
	aw->await_resume(); vc_loop_contract(nullptr, nullptr, ""); fin(); unlocked(); delete aw;
}
VC_HARNESS(ctor) {
	mutex_t x; vc_assert(!x.is_locked() && x._mutex->_counter.load() == 0 && x._mutex->_wait_awakes.empty(), "a new mutex is free"); vc_cover("ctor");
	mutex_t y(x); vc_assert(y._mutex == x._mutex, "a copy is the same mutex"); mutex_t z(std::adopt_lock); vc_assert(!z._mutex, "an empty mutex object refers to none");
}
// ------------------------------------------------------------------ guards
static E* log_m[4]; static void* log_o[4]; static int nlog; static bool log_on;
static bool unlock_GHOST(E* x, void* o) { if (!log_on) return x->unlock(o); vc_assert(o != nullptr, "somebody unlocks"); if (nlog < 4) { log_m[nlog] = x; log_o[nlog] = o; } ++nlog; return vc::b("owned"); }
VC_CONTRACT("librf::detail::mutex_v2_impl::unlock\\(void\\*\\)", unlock_GHOST, "C06")
using G = batch_unlock_t<mutex_t>;
VC_HARNESS(guard) {
	nlog = 0; log_on = true; mutex_t a, b; void* o1 = vc::any_scheduler("o1"); void* o2 = vc::any_scheduler("o2");
	long ua = a._mutex.use_count(), ub = b._mutex.use_count(); int how;
	{
		G g(std::adopt_lock, o1, a); vc_assert(nlog == 0, "a guard keeps its mutex locked"); how = vc_choose("unlocked early") ? 0 : vc_choose("moved") ? 1 : vc_choose("assigned") ? 2 : vc_choose("emptied") ? 3 : vc_choose("to itself") ? 4 : 5;
		if (how == 0) { vc_cover("early"); g.unlock(); vc_assert(nlog == 1, "an early unlock unlocks"); g.unlock(); }
		if (how == 1) { vc_cover("moved"); { G h(std::move(g)); vc_assert(nlog == 0, "moving a guard keeps the mutex locked"); } vc_assert(nlog == 1, "the last guard unlocks"); g.unlock(); }
		if (how == 2) { vc_cover("assigned"); { G h(std::adopt_lock, o2, b); g = std::move(h); vc_assert(nlog == 1 && log_m[0] == a._mutex.get() && log_o[0] == o1, "a guard that is assigned to unlocks what it held"); } vc_assert(nlog == 1, "a guard keeps the mutex it was given"); }
		if (how == 3) { vc_cover("emptied"); g = G(); vc_assert(nlog == 1, "a guard that is emptied unlocks what it held"); }
		if (how == 4) { vc_cover("self"); G& r = g; g = std::move(r); }
	}
	if (how == 2) vc_assert(nlog == 2 && log_m[1] == b._mutex.get() && log_o[1] == o2, "a guard unlocks exactly what it holds, once");
	else vc_assert(nlog == 1 && log_m[0] == a._mutex.get() && log_o[0] == o1, "a guard unlocks exactly what it holds, once, for its owner");
	vc_assert(a._mutex.use_count() == ua && b._mutex.use_count() == ub, "a guard keeps its mutex alive as long as it needs it"); vc_cover("guard");
}
// ------------------------------------------------------------------ C07: the waiter decides once between unlock and time-out
static SM* st; static E* cell; static bool ext, taken; static void* place;
static void added1(scheduler_t* s, state_base_t* b) {
	vc_assert(s == sch && b == static_cast<state_base_t*>(st), "the waiting task is scheduled on its scheduler"); vc_assert(vc::n_added == 1, "the waiting task is scheduled once");
	vc_assert(st->_value.load() == nullptr, "the outcome is decided before the task is scheduled"); taken = *(E**)place == e; vc_kill(place);
}
static void env(void* p, int k, int) {
	if (p == (void*)&st->_value && k == 0 && !ext && st->_value.load() != nullptr && vc_choose("the other side wins the race")) { ext = true; st->_value.store(nullptr); vc_kill(place); }
}
static void one_waiter() {
	sch = vc::timed_scheduler("sch"); mx = new mutex_t; e = mx->_mutex.get();
	place = ::operator new(sizeof(E*)); *(E**)place = e; st = new SM(*(E**)place); st->_scheduler = sch; st->_coro = coroutine_handle<>::from_address(vc::coro()); st->_root = new_root(); st->_count.store(2);
	vc::on_added = added1; ext = false; vc_atomhook(env);
	if (vc_choose("already decided")) { st->_value.store(nullptr); ext = true; vc_kill(place); }
}
static void end_() { vc_atomhook(nullptr); vc_assert(vc_nheld() == 0, "no lock is kept"); vc_assert(vc::resumes == 0, "nobody is resumed inside the operation"); vc_assert(owner() == nullptr && depth() == 0 && e->_wait_awakes.empty(), "a waiter does not touch the mutex"); }
VC_HARNESS(notify) {
	one_waiter(); bool won = st->on_notify(e); end_();
	vc_assert(won == !ext, "the hand-over is accepted exactly when it decides the outcome"); vc_assert(vc::n_added == (won ? 1u : 0u), "the task is scheduled exactly when the hand-over decides");
	if (won) { vc_cover("hand-over wins"); vc_assert(taken, "a wait decided by a hand-over gets the mutex"); vc_assert(vc::n_stop == 1 && vc::stopped == &st->_thandler, "the timer of a woken waiter is stopped"); }
	else { vc_cover("hand-over loses"); vc_assert(vc::n_stop == 0, "a losing hand-over has no effect"); }
}
VC_HARNESS(timeout) {
	one_waiter(); bool won = st->on_timeout(); end_();
	vc_assert(won == !ext, "the time-out is accepted exactly when it decides the outcome"); vc_assert(vc::n_added == (won ? 1u : 0u), "the task is scheduled exactly when the time-out decides");
	if (won) { vc_cover("time-out wins"); vc_assert(!taken, "a wait decided by its time-out does not get the mutex"); } else vc_cover("time-out loses");
}
VC_HARNESS(resume_waiter) {
	one_waiter(); vc_atomhook(nullptr); bool has = vc_choose("not yet resumed"); void* h = st->_coro.address(); if (!has) st->_coro = nullptr;
	vc_assert(st->has_handler() == has, "a waiter has something to run until it is resumed"); vc::on_added = nullptr; vc::on_final = nullptr; 
	st->resume(); vc_assert(vc::resumes == (has ? 1 : 0) && !st->has_handler(), "a woken task is resumed once"); if (has) { vc_assert(vc::last_resumed == h, "a woken task is resumed once"); vc_cover("resumed"); } else vc_cover("nothing");
}
static bool n_fin; static bool got; static mutex_t::timeout_awaiter* taw;
static void added2(scheduler_t* s, state_base_t* b) { vc_assert(s == sch && b == static_cast<state_base_t*>(st), "the waiting task is scheduled on its scheduler"); vc_assert(!n_fin, "the waiting task is scheduled once"); n_fin = true; got = taw->await_resume(); }
VC_HARNESS(timer_callback) {
	task(); vc_assume(true); auto* aw = taw = new mutex_t::timeout_awaiter(timed()); bool s = aw->await_suspend(vc::handle(fr)); fin(); if (!s) { aw->await_resume(); return; }
	st = aw->_state.get(); vc::on_added = added2; n_fin = false; auto& cb = (*vc::last_target)->cb;
	bool first = vc_choose("handed over first"), canceled = vc_choose("timer cancelled"), a1 = false; if (first) a1 = st->on_notify(e);
	cb(canceled); bool a2 = st->on_notify(e);
	if (first) { vc_cover("unlock then timer"); vc_assert(a1 && !a2 && n_fin && got, "a hand-over before the time-out decides; the timer then has no effect"); }
	else if (!canceled) { vc_cover("timer then unlock"); vc_assert(!a2 && n_fin && !got, "the time-out decides; a later hand-over is refused"); }
	else { vc_cover("timer cancelled"); vc_assert(a2 && n_fin && got, "a cancelled timer decides nothing"); }
}
