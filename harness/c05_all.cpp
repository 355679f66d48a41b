// C05: waiting for all of a set of events.  The wait itself (any number of events, any part of them signalled), the arrival of a
// signal, the time-out and the race between them, and whole runs of compiled tasks.
#include "vc_sched.h"
#include "vc_list.h"
#include "vc_rely.h"
#include "vc_timer.h"
// what private access hides from the library's own detection: no awaiter of an event has a state of its own
namespace librf::traits {
	template<> struct has_state<event_t::awaiter, void> : std::false_type {}; template<> struct has_state<event_t::timeout_awaiter, void> : std::false_type {};
	template<class I> struct has_state<event_t::all_awaiter<I>, void> : std::false_type {}; template<class I> struct has_state<event_t::timeout_all_awaiter<I>, void> : std::false_type {};
}
using namespace librf;
using E = detail::event_v2_impl; using SB = detail::state_event_base_t; using Q = E::wait_queue_type; using SA = detail::state_event_all_t; using PX = detail::state_event_proxy_t<SA>; using sub_t = SA::sub_state_t; using VV = std::vector<sub_t>;
using LR = std::reference_wrapper<E::lock_type>; using BL = batch_lock_t<LR>; using LV = std::vector<LR>;
static bool whole_;
static uint64_t N; static scheduler_t* sch;
// ------------------------------------------------------------------ the events of the set: element i is any event (a task waits => no signal is stored)
struct waiter final : SB {
	uint64_t others;
	void on_cancel() noexcept override { vc_assert(false, "an event never cancels a waiter"); }
	bool on_notify(E*) override { vc_assert(false, "a wait wakes nobody"); return false; }
	bool on_timeout() override { vc_assert(false, "an event never times a waiter out"); return false; }
	~waiter() { vc_assert(others == 0, "a waiter is released only when nobody else holds it"); }
};
struct evt_t { uint64_t i, n, c; E* e; vc::vlist<Q>* R; };
static evt_t* cur; static evt_t* seen[8]; static uint64_t n_seen; /* bounded stand-in: all of them */ static bool locked; static uint64_t n_locks, n_locked, n_unlocked;
static SB* mk_waiter(uint64_t i, void* u) { waiter* x = new waiter; x->others = vc::count("holders"); vc_assume(x->others >= 1); x->_count.store((intptr_t)(x->others + ((vc::vlist<Q>*)u)->refs(i))); return x; }
static evt_t* any_event(uint64_t i) {
	evt_t* v = new evt_t; v->i = i; v->e = new E(false); v->n = vc::count("waiting"); v->c = vc::count("stored signals"); vc_assume(v->n == 0 || v->c == 0);
	v->e->_counter.store((intptr_t)v->c); v->R = new vc::vlist<Q>; v->R->init(&v->e->_wait_awakes, 0, v->n, mk_waiter, v->R); return v;
}
static void* mk_event(uint64_t i, void*) { event_t* x = (event_t*)vc_alloc(sizeof(event_t), "event"); cur = any_event(i); if (n_seen < 8) seen[n_seen++] = cur; x->_event._M_ptr = cur->e; x->_event._M_refcount._M_pi = nullptr; return x; }
static uint64_t counter(E* e) { return (uint64_t)e->_counter.load(); }
// ------------------------------------------------------------------ the locks: a set that is taken as a whole (C08)
static SA* st;
static void lv_reserve(LV*, uint64_t) {}
static uint64_t phase;
static void lv_push_GHOST(LV* v, LR&& r) {
	if (whole_) { v->push_back(std::move(r)); return; }
	if (n_locks < N) { vc_assert(cur != nullptr && &r.get() == &cur->e->_lock && cur->i == n_locks, "the lock of each event of the set is taken"); }
	else vc_assert(n_locks == N, "the lock of each event of the set is taken once");
	++n_locks; if (n_locks > N) st = (SA*)((char*)&r.get() - offsetof(SA, _lock));
}
static void bl_ctor_GHOST(BL* b, LV& v) { if (whole_) { ::new ((void*)b) BL(v); return; } vc_assert(n_locks == N + 1 && !locked && n_locked == 0, "the lock of each event, and of the wait, is taken"); locked = true; ++n_locked; }
// with the locks given back a signal of another thread may come, the waiting task may run and end: nothing of the wait may be touched after
static void (*on_free)();
static void bl_free() { vc_assert(locked && !vc_freed(st), "the locks are given back once, before what they are part of is released"); if (on_free) on_free(); locked = false; ++n_unlocked; }
static void bl_unlock_GHOST(BL* b) { if (whole_) { b->unlock(); return; } bl_free(); }
static void bl_dtor_GHOST(BL* b) { if (whole_) { b->~BL(); return; } if (locked) bl_free(); }
#define LRT "std::reference_wrapper<librf::spinlock>"
#define LVT "std::vector<" LRT ", std::allocator<" LRT "\\s*>\\s*>"
VC_CONTRACT(LVT "::reserve\\(.*", lv_reserve, "trusted")
VC_CONTRACT(LVT "::push_back\\(.*&&\\)", lv_push_GHOST, "trusted")
static LR& lv_emplace_GHOST(LV* v, E::lock_type& l) { if (whole_) return v->emplace_back(l); LR r(l); lv_push_GHOST(v, std::move(r)); return *(LR*)nullptr; }
VC_CONTRACT(".* " LVT "::emplace_back<librf::spinlock&>\\(librf::spinlock&\\)", lv_emplace_GHOST, "trusted")
#define BLT "librf::batch_lock_t<" LRT ", .*>"
VC_CONTRACT(BLT "::batch_lock_t\\(" LVT "&\\)", bl_ctor_GHOST, "C08")
VC_CONTRACT(BLT "::unlock\\(\\)", bl_unlock_GHOST, "C08")
VC_CONTRACT(BLT "::~batch_lock_t\\(\\)", bl_dtor_GHOST, "C08")
// ------------------------------------------------------------------ the registered positions
static void* vals; static VV* vals_of; static uint64_t n_vals_freed;
static void* mk_empty(uint64_t, void*) { sub_t* s = (sub_t*)vc_alloc(sizeof(sub_t), "position"); ::new ((void*)s) sub_t{ nullptr, nullptr }; return s; }
static void set_vals(VV* v, void* a, uint64_t n) { vals = a; v->_M_impl._M_start = (sub_t*)a; v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = (sub_t*)a + n; }
static void vv_resize_GHOST(VV* v, uint64_t n, const sub_t& x) { if (whole_) { v->resize(n, x); return; } vc_assert(n == N && !x.first && !x.second, "one empty position for each event"); set_vals(v, vc_lazy_array(n, sizeof(sub_t), mk_empty, nullptr, "positions"), n); }
static void vv_dtor_GHOST(VV* v) { if (whole_) { v->~VV(); return; } if (vals && (void*)v->_M_impl._M_start == vals) { ++n_vals_freed; vals = nullptr; } else vc_assert(v->_M_impl._M_start == nullptr, "the positions are released once"); }
#define VVT "std::vector<std::pair<librf::counted_ptr<librf::detail::state_event_base_t>, librf::detail::event_v2_impl\\*>, std::allocator<.*>\\s*>"
VC_CONTRACT(VVT "::resize\\(unsigned long, .*", vv_resize_GHOST, "trusted")
VC_CONTRACT(VVT "::~vector\\(\\)", vv_dtor_GHOST, "trusted")
// ------------------------------------------------------------------ the wait
using AW = event_t::all_awaiter<const event_t*>; using TW = event_t::timeout_all_awaiter<const event_t*>;
static void* aw_; static void* task_; static uint64_t nc; static void* events; static bool loop2;
static void hook(void* p, int kind, int) {
	if (cur && (p == (void*)&cur->e->_counter || p == (void*)&cur->e->_wait_awakes._count)) vc_assert(kind == 0 || locked, "an event changes only in the critical section");
}
static sub_t* position(uint64_t i) { return (sub_t*)vals + i; }
static void wait_check() {
	uint64_t k = vc_k(); if (k == 0 && vals != nullptr) loop2 = true;
	vc_assert(k <= N, "each event once");
	if (!loop2) { vc_assert(n_locks == k && !locked, "the lock of each event"); return; }
	vc_assert(locked && n_locks == N + 1 && st != nullptr, "the events are looked at with every lock held");
	uint64_t taken = nc;
	if (k > 0 && cur) {
		vc_assert(cur->i == k - 1, "each event once"); sub_t* s = position(k - 1); E* e = cur->e;
		vc_assert(s->second == e, "position i is that of event i");
		if (cur->c > 0) { ++taken; vc_cover("signalled before"); vc_assert(counter(e) == cur->c - 1 && s->first == nullptr, "one stored signal is consumed"); cur->R->check(0, cur->n, "a signalled event is not waited for"); }
		else {
			vc_cover("not signalled yet"); SB* p = s->first.get(); vc_assert(p != nullptr && counter(e) == 0, "no signal is invented"); PX* x = static_cast<PX*>(p);
			vc_assert(x->_state == st && x->_index == (intptr_t)(k - 1), "whoever waits at event i stands for position i");
			cur->R->check_app(0, cur->n, p, "the wait is appended to the event's waiters"); vc_assert((uint64_t)x->_count.load() == 3, "held by the list and by its position");
		}
	}
	vc_assert(taken <= k && st->_counter == (intptr_t)(N - taken), "as many signals are outstanding as have not been consumed");
}
static void wait_havoc() {
	uint64_t k = vc_k(); vc_assume(k <= N); cur = nullptr;
	if (!loop2) { n_locks = k; return; }
	nc = vc::count("consumed"); vc_assume(nc <= k); st->_counter = (intptr_t)(N - nc);
}
static bool w_waits, w_ok; static uint64_t w_left; static intptr_t w_count;
template<class A> static void gone_() {
	A* a = (A*)aw_; w_left = (uint64_t)st->_counter; w_waits = w_left != 0; if (!w_waits) return;
	w_count = st->_count.load(); w_ok = a->_state.get() == st && st->_result == &a->_value && st->_scheduler == sch && st->_coro.address() == (void*)task_; vc_kill(a); if (w_count == 1) vc_kill(st);
}
template<class A> static void prove_wait(A* a, bool timed, int64_t due) {
	aw_ = a; on_free = gone_<A>; auto* fr = vc::task_frame<promise_t<int>>(sch); task_ = fr;
	vc_assert(a->await_ready() == (N == 0), "a wait for no event at all is complete, every other one is not before its events have been looked at");
	if (N == 0) { vc_assert(a->await_resume(), "a wait for no event succeeds"); vc_cover("no event"); return; }
	st = nullptr; cur = nullptr; vals = nullptr; nc = 0; loop2 = false; locked = false; n_locks = n_locked = n_unlocked = n_vals_freed = 0; vc_atomhook(hook);
	vc_loop_contract(wait_check, wait_havoc, "the events of the set");
	bool s = a->await_suspend(vc::handle(fr));
	vc_loop_contract(nullptr, nullptr, ""); vc_atomhook(nullptr);
	if (vc_bound()) {
		vc_assert(n_seen == N, "each event once"); nc = 0; for (uint64_t i = 0; i < n_seen; ++i) {
			evt_t* v = seen[i]; if (v->c > 0) { ++nc; vc_assert(counter(v->e) == v->c - 1, "one stored signal is consumed"); v->R->check(0, v->n, "a signalled event is not waited for"); continue; }
			vc_assert(s && counter(v->e) == 0, "no signal is invented"); sub_t* b = position(v->i); SB* x = b->first.get(); vc_assert(x != nullptr && b->second == v->e, "position i is that of event i");
			vc_assert(static_cast<PX*>(x)->_state == st && static_cast<PX*>(x)->_index == (intptr_t)v->i, "whoever waits at event i stands for position i"); v->R->check_app(0, v->n, x, "the wait is appended to the event's waiters"); vc_assert((uint64_t)x->_count.load() == 3, "held by the list and by its position");
		}
	}
	vc_assert(!locked && n_locked == 1 && n_unlocked == 1, "the locks are taken and given back once"); vc_assert(vc::n_added == 0 && vc::resumes == 0, "the task that waits is not scheduled by its own wait");
	vc_assert(vc::n_timers == (timed ? 1 : 0), "a timed wait registers one timer, an untimed one none"); if (timed) vc_assert(vc::timer_tp == due && vc::timer_mgr == sch->timer(), "the timer is due when the time is over");
	vc_assert(s == (nc != N), "it waits exactly when a signal is outstanding");
	if (!s) {
		vc_cover("all signalled"); vc_assert(a->_state == nullptr, "nothing is left of a wait that has not waited"); vc_assert(a->await_resume(), "a wait whose events have all fired succeeds");
		if (timed) vc_assert(!vc_freed(st) && st->_count.load() == 1 && st->_counter == 0, "its timer finds it complete"); else vc_assert(vc_freed(st) && n_vals_freed == 1, "released");
	} else {
		vc_cover("waits"); vc_assert(w_waits && w_left == N - nc && w_left > 0, "it waits for the outstanding signals");
		vc_assert(w_ok, "its task is woken on its scheduler, with its result"); vc_assert(w_count == (timed ? 2 : 1), "held by the wait and its timer");
	}
}
static void any_set() { n_seen = 0; N = vc::count("events"); vc_assume(N < (1u << 30)); sch = vc::timed_scheduler("sch"); whole_ = false; events = vc_lazy_array(N, sizeof(event_t), mk_event, nullptr, "events"); }
VC_HARNESS(wait) { any_set(); prove_wait(new AW(event_t::wait_all((const event_t*)events, (const event_t*)events + N)), false, 0); }
static int64_t now_; static int n_now; static std::chrono::system_clock::time_point a_now() { ++n_now; return std::chrono::system_clock::time_point(std::chrono::system_clock::duration(now_)); }
VC_CONTRACT("std::chrono::(_V2::)?system_clock::now\\(\\)", a_now, "trusted")
VC_HARNESS(wait_timed) {
	any_set(); now_ = (int64_t)vc::u64("now"); int64_t d = (int64_t)vc::u64("how long"); vc_assume(now_ >= 0 && now_ < (1ll << 62) && d >= -(1ll << 61) && d < (1ll << 61)); n_now = 0;
	prove_wait(new TW(event_t::wait_all_for(std::chrono::nanoseconds(d), (const event_t*)events, (const event_t*)events + N)), true, now_ + d);
}
// ------------------------------------------------------------------ a wait that waits: any number of its signals have come, the outcome may have been decided already
//   invariant (state lock): undecided => position i names event i, and its first half is the proxy exactly while the signal of event i
//   is outstanding; as many are outstanding as _counter says.  Decided => _counter <= 0, and no further effect.
static bool decided, res_, awaiter_gone; static uint64_t left, at; static int n_add, n_rm, n_rm_done; static E* rm_e; static SB* rm_p;
static SA* sa; static bool* result_cell; static bool by_timer; static bool first_of_k; static E* e_of_k; static SB* p_of_k;
struct pos_t { E* e; SB* p; int told; }; static pos_t ps[8]; static uint64_t n_ps;   // bounded stand-in: all positions
static SB* a_proxy(uint64_t i) { PX* x = new PX(sa, (intptr_t)i); x->_count.store((intptr_t)(2 + vc::count("holders"))); return x; }
static void* mk_pos(uint64_t i, void*) {
	sub_t* s = (sub_t*)vc_alloc(sizeof(sub_t), "position"); ::new ((void*)s) sub_t{ nullptr, nullptr };
	e_of_k = new E(false); first_of_k = i == at || vc_choose("outstanding"); p_of_k = first_of_k ? a_proxy(i) : nullptr; if (n_ps < 8) ps[n_ps++] = { e_of_k, p_of_k, 0 };
	*(SB**)&s->first = p_of_k; s->second = e_of_k; return s;
}
static VV* the_vals() { return &sa->_values; }
static bool all_told() { if (n_ps != N) return false; for (uint64_t i = 0; i < n_ps; ++i) if (ps[i].told != (ps[i].p != nullptr)) return false; return true; }
static void state_init() {
	n_ps = 0;
	if (!decided && vc_choose("decided by another")) decided = true;
	vc::n_stop = vc::n_reset = 0;
	if (decided) { sa->_counter = 0; sa->_values._M_impl._M_start = sa->_values._M_impl._M_finish = sa->_values._M_impl._M_end_of_storage = nullptr; vals = nullptr; left = 0; if (vc_choose("by a signal")) { set_vals(the_vals(), vc_lazy_array(N, sizeof(sub_t), mk_pos, nullptr, "positions"), N); } return; }
	left = vc::count("outstanding signals"); vc_assume(left >= 1 && left <= N); sa->_counter = (intptr_t)left;
	set_vals(the_vals(), vc_lazy_array(N, sizeof(sub_t), mk_pos, nullptr, "positions"), N);
}
static void state_same() { vc_assert(n_add == 0 && n_rm == 0 && sa->_counter == (intptr_t)(decided ? 0 : left), "no effect outside the deciding critical section"); }
// the task that is woken may run at once on another thread: it reads the result, and the wait is over
static void all_added(scheduler_t* s, state_base_t* b) {
	vc_assert(s == sch && b == static_cast<state_base_t*>(sa), "the waiting task is woken on its scheduler"); vc_assert(++n_add == 1, "the waiting task is woken once");
	vc_assert(sa->_counter == 0, "the outcome is decided before the task is woken"); vc_assert(!by_timer || (vc_bound() ? all_told() : n_rm_done), "no signal reaches a wait that is over");
	res_ = *result_cell; awaiter_gone = true; vc_kill(result_cell); sa->unlock();
}
static void waiting() {
	N = vc::count("events"); vc_assume(N >= 1 && N < (1u << 30)); sch = vc::timed_scheduler("sch"); whole_ = false; vals = nullptr; n_vals_freed = 0; n_add = n_rm = n_rm_done = 0; decided = awaiter_gone = by_timer = false; at = N; cur = nullptr;
	result_cell = new bool(vc_choose("result")); sa = vc::raw<SA>("wait"); whole_ = true; ::new ((void*)sa) SA(0, *result_cell); whole_ = false;
	sa->_scheduler = sch; sa->_coro = coroutine_handle<>::from_address(vc::coro()); sa->lock();
	vc::rely(&sa->_lock, state_init, state_same); vc::on_added = all_added;
}
static void pos_check() { vc_assert(vc_k() <= N, "each position once"); vc_assert(n_add == 0, "the task is woken once"); }
static void pos_havoc() { vc_assume(vc_k() <= N); }
static bool was_decided() { return decided; }
VC_HARNESS(notify) {
	waiting(); at = vc::u64("event"); vc_assume(at < N); uint64_t others = vc::count("holders"); if (others) sa->_count.store((intptr_t)(1 + others)); E* e = new E(false);
	vc_loop_contract(pos_check, pos_havoc, "the positions of a complete wait");
	bool acc = sa->on_notify(e, (intptr_t)at);
	vc_loop_contract(nullptr, nullptr, ""); vc::rely_off(); vc_assert(vc_nheld() == 0, "no lock is kept"); vc_assert(vc::resumes == 0, "nobody is resumed inside the operation");
	vc_assert(acc == !decided, "a signal is accepted exactly while the wait is undecided");
	if (!acc) { vc_cover("refused"); vc_assert(n_add == 0 && vc::n_stop == 0, "a refused signal has no effect"); return; }
	if (left == 1) {
		vc_cover("last"); vc_assert(n_add == 1, "the last signal wakes the task"); vc_assert(res_, "a wait whose events have all fired succeeds"); vc_assert(vc::n_stop == 1, "its timer is stopped");
		vc_assert(vc_freed(sa) == (others == 0), "the wait is released by whoever lets go last");
	} else {
		vc_cover("not the last"); vc_assert(n_add == 0 && !awaiter_gone, "it goes on waiting while a signal is outstanding"); vc_assert(vc::n_stop == 0, "its timer keeps running"); vc_assert(sa->_counter == (intptr_t)(left - 1), "one signal less is outstanding");
		sub_t* s = position(at); vc_assert(s->first == nullptr && s->second == e_of_k, "the signal of this event has come"); vc_assert((uint64_t)sa->_count.load() == 1 + others, "held as before");
	}
}
static void rm_GHOST(E* e, SB* p) {
	if (whole_) { e->remove_wait_list(p); return; }
	vc_assert(vc_nheld() == 0, "the lock of an event is taken before that of a wait, never after"); vc_assert(sa->_counter == 0, "the outcome is decided before the wait is withdrawn");
	if (vc_bound()) { bool ok = false; for (uint64_t i = 0; i < n_ps; ++i) if (ps[i].e == e && ps[i].p == p && p) { ok = true; vc_assert(++ps[i].told == 1, "each outstanding event is told once"); } vc_assert(ok, "each outstanding event is told once"); ++n_rm; return; }
	vc_assert(e == e_of_k && p == p_of_k && first_of_k && n_rm == 0, "each outstanding event is told once"); ++n_rm;
}
VC_CONTRACT("librf::detail::event_v2_impl::remove_wait_list\\(librf::detail::state_event_base_t\\*\\)", rm_GHOST, "C05")
static void out_check() { uint64_t k = vc_k(); vc_assert(k <= N, "each position once"); vc_assert(n_add == 0 && sa->_counter == 0, "the task is woken after the wait has been withdrawn from every event"); if (k > 0 && e_of_k) vc_assert(n_rm == (first_of_k ? 1 : 0), "the wait is withdrawn from exactly the events that are outstanding"); n_rm_done = k == N; }
static void out_havoc() { vc_assume(vc_k() <= N); n_rm = 0; e_of_k = nullptr; p_of_k = nullptr; n_rm_done = vc_k() == N; }
VC_HARNESS(timeout) {
	waiting(); sa->lock(); by_timer = true;
	vc_loop_contract(out_check, out_havoc, "the events of a wait that has timed out");
	bool acc = sa->on_timeout();
	vc_loop_contract(nullptr, nullptr, ""); vc::rely_off(); vc_assert(vc_nheld() == 0, "no lock is kept"); vc_assert(vc::resumes == 0, "nobody is resumed inside the operation");
	vc_assert(acc == !decided, "the time-out decides exactly while the wait is undecided");
	if (acc) { vc_cover("timed out"); vc_assert(n_add == 1 && !res_, "a wait that times out wakes its task once, with that result"); vc_assert(vc::n_reset == 1 || vc::n_stop == 1, "its timer is forgotten"); vc_assert(n_vals_freed == 1 && !vc_freed(sa) && sa->_counter == 0 && sa->_count.load() == 1, "only the timer still holds it"); }
	else { vc_cover("too late"); vc_assert(n_add == 0 && vc::n_stop == 0 && vc::n_reset == 0, "a time-out that comes too late has no effect"); }
}
VC_HARNESS(proxy) {
	waiting(); vc::rely_off(); at = vc::u64("event"); vc_assume(at < N); sa->lock(); PX* x = new PX(sa, (intptr_t)at); state_init(); uint64_t l0 = left; bool d0 = decided; vc_assume(l0 != 1); E* e = new E(false);
	bool acc = static_cast<SB*>(x)->on_notify(e); vc_assert(acc == !d0, "a signal is accepted exactly while the wait is undecided"); if (acc) { vc_cover("accepted"); vc_assert(sa->_counter == (intptr_t)(l0 - 1) && position(at)->first == nullptr, "the signal counts for its event"); } else vc_cover("refused");
}
// withdrawing from an event: its place may be anywhere, or a signal may just have taken it off
VC_HARNESS(withdraw) {
	whole_ = true; event_t& ev = *new event_t(false); E* e = ev._event.get(); sch = vc::timed_scheduler("sch"); bool listed = vc_choose("still listed"); uint64_t n = vc::count("waiting"); static uint64_t pos; static PX* x; SA* dummy = vc::raw<SA>("wait"); x = new PX(dummy, 0);
	vc::vlist<Q>* R = new vc::vlist<Q>; pos = vc::u64("place"); uint64_t others = vc::count("holders"); vc_assume(others >= 1);
	if (listed) { vc_assume(pos < n); R->init_with(&e->_wait_awakes, 0, n, pos, [](uint64_t i, void* u) -> SB* { return i == pos ? (SB*)x : mk_waiter(i, u); }, R); x->_count.store((intptr_t)(others + R->refs(pos))); }
	else { R->init(&e->_wait_awakes, 0, n, mk_waiter, R); x->_count.store((intptr_t)others); x->_prev = nullptr; }
	vc_guard(&e->_wait_awakes, sizeof(e->_wait_awakes), &e->_lock);
	e->remove_wait_list(x); vc_unguard(); vc_assert(vc_nheld() == 0, "no lock is kept"); vc_assert(counter(e) == 0, "no signal is invented or lost");
	if (listed) { vc_cover("listed"); R->check(0, n, pos, true, nullptr, 0, "it leaves the list, the others keep their order"); } else { vc_cover("not listed any more"); R->check(0, n, "the others keep their order"); }
	vc_assert((uint64_t)x->_count.load() == others, "the list lets go of it");
}
// ------------------------------------------------------------------ the guard over a set of locks (the algorithm itself: C08)
using LA = detail::_LockVectorAssembleT<LR, LV>; static bool batching; static int b_held; static LV* b_v;
static void b_range_GHOST(LA& a) { if (!batching) { detail::scoped_lock_range_lock_impl::_Lock_range(a); return; } vc_assert(&a._Lks == b_v && b_held == 0, "the set is locked once"); b_held = 1; }
static void b_unlock_GHOST(int f, int l, LA& a) { if (!batching) { detail::scoped_lock_range_lock_impl::_Unlock_locks(f, l, a); return; } vc_assert(&a._Lks == b_v && b_held == 1 && f == 0 && (uint64_t)l == N, "the whole set is given back, once"); b_held = 0; }
#define LT "(.* )?librf::detail::scoped_lock_range_lock_impl::"
VC_CONTRACT(LT "_Lock_range<librf::detail::_LockVectorAssembleT<std::reference_wrapper.*", b_range_GHOST, "C08")
VC_CONTRACT(LT "_Unlock_locks<librf::detail::_LockVectorAssembleT<std::reference_wrapper.*", b_unlock_GHOST, "C08")
VC_HARNESS(lock_set) {
	whole_ = true; batching = true; b_held = 0; N = vc::count("locks"); vc_assume(N < (1u << 30)); b_v = new LV; LR* a = (LR*)vc_array(N, sizeof(LR), "set"); b_v->_M_impl._M_start = a; b_v->_M_impl._M_finish = b_v->_M_impl._M_end_of_storage = a + N;
	{ BL b(*b_v); vc_assert(b_held == 1, "taken"); if (vc_choose("given back early")) { b.unlock(); vc_assert(b_held == 0, "given back"); if (vc_choose("twice")) b.unlock(); vc_cover("early"); } else if (vc_choose("moved")) { BL c(std::move(b)); vc_assert(b_held == 1, "moved, not given back"); vc_cover("moved"); } else vc_cover("at the end"); }
	vc_assert(b_held == 0, "given back"); batching = false;
}
// ------------------------------------------------------------------ whole runs: everything compiled, two or three events, every order of signals and time-out
static counted_ptr<state_base_t> rq[16]; static int rq_h, rq_t; static task_t* registry[4]; static int n_reg, n_retired;
static void q_add_GHOST(scheduler_t* s, state_base_t* b) { vc_assert(s == sch, "a task stays on its scheduler"); vc_assert(rq_t < 16, "bounded"); rq[rq_t++] = b; }
static void q_final_GHOST(scheduler_t* s, state_base_t* b) { vc_assert(s == sch, "a task stays on its scheduler"); for (auto& r : registry) if (r && r->_state.get() == b) { task_t* t = r; r = nullptr; ++n_retired; delete t; } }
static void run_GHOST() { while (rq_h < rq_t) { counted_ptr<state_base_t> s(std::move(rq[rq_h++])); s->resume(); } }
static task_t* new_task(scheduler_t* s, task_t* t) { vc_assert(s == sch && n_reg < 4, "bounded"); registry[n_reg++] = t; t->_state->set_scheduler(s); if (t->_state->has_handler()) q_add_GHOST(s, t->_state.get()); return t; }
VC_CONTRACT("librf::scheduler_t::new_task\\(librf::task_t\\*\\)", new_task, "C10")
static int n_ev, n_end; static bool outcome, timed_;
static future_t<> top(std::vector<event_t> v) { bool r; if (timed_) r = co_await event_t::wait_all_for(std::chrono::nanoseconds(1000), v); else r = co_await event_t::wait_all(v); outcome = r; ++n_end; }
static future_t<> top_range(event_t* b, event_t* e) { bool r; if (timed_) r = co_await event_t::wait_all_for(std::chrono::nanoseconds(1000), b, e); else r = co_await event_t::wait_all(b, e); outcome = r; ++n_end; }
static void whole(int n, bool timed, bool range, bool first, int extra) {
	whole_ = true; timed_ = timed; n_ev = n; n_end = 0; rq_h = rq_t = n_reg = n_retired = 0; for (auto& r : registry) r = nullptr; sch = vc::timed_scheduler("sch"); vc::on_added = q_add_GHOST; vc::on_final = q_final_GHOST; vc::on_acquire = vc::on_release = nullptr; now_ = 1000000;
	int given[3] = { 0, 0, 0 }, eaten[3] = { 0, 0, 0 }; bool over = false; uint64_t mark = vc_mark();
	{ event_t ev[3] = { event_t(false), event_t(false), event_t(false) };
	for (int i = 0; i < n; ++i) if (vc_choose("signalled before")) { ev[i].signal(); given[i] = 1; }
	if (range) *sch + top_range(ev, ev + n); else { std::vector<event_t> v; for (int i = 0; i < n; ++i) v.push_back(ev[i]); *sch + top(v); }
	vc_assert(n_end == 0, "a task does not run before its scheduler runs it"); run_GHOST();
	for (int i = 0; i < n; ++i) if (given[i]) eaten[i] = 1;
	for (;;) {
		bool all = true; for (int i = 0; i < n; ++i) if (!eaten[i]) all = false;
		if (all && !over) { vc_assert(n_end == 1 && outcome, "it completes, successfully, when each of its events has fired"); over = true; vc_cover("all fired"); }
		vc_assert(n_end == (over ? 1 : 0), "it does not complete while a signal is outstanding"); for (int i = 0; i < n; ++i) vc_assert((int)counter(ev[i]._event.get()) == given[i] - eaten[i], "one signal of each event is consumed");
		if (over && extra-- <= 0) break;
		if (timed && vc_choose("time-out")) { (*vc::last_target)->cb(false); if (!over) { vc_assert(n_end == 0, "the task is woken, not run"); run_GHOST(); vc_assert(n_end == 1 && !outcome, "a time-out ends the wait, with that result"); over = true; vc_cover("time-out"); } else run_GHOST(); continue; }
		int i = 0; while (i < n - 1 && vc_choose("another event")) ++i;
		if (eaten[i] && given[i] > 2) vc_end();
		ev[i].signal(); ++given[i]; if (!over && !eaten[i]) eaten[i] = 1; run_GHOST();
	}
	if (timed && vc::last_target) { vc_assert(vc::n_timers == 1 && vc::timer_tp == now_ + 1000, "one timer"); (*vc::last_target)->cb = nullptr; delete vc::last_target; }
	vc_assert(n_retired == 1, "the task ends"); }
	if (!timed) vc_assert(vc_leaks(mark) == 0, "nothing is left behind"); vc_cover("whole");
}
VC_HARNESS(whole_two) { whole(2, false, true, false, 1); }
VC_HARNESS(whole_three) { whole(3, false, false, false, 0); }
VC_HARNESS(whole_two_timed) { whole(2, true, false, false, 2); }
VC_HARNESS(whole_three_timed) { whole(3, true, true, false, 1); }
