#pragma once
// Shared by C03 / C04: event_t operations against the event contract, from every event state that satisfies its invariant
//   (a task waits => no signal is stored), and under every interference allowed by the lock.
#include "vc_sched.h"
#include "vc_list.h"
#include "vc_rely.h"
using namespace librf;
using E = detail::event_v2_impl;
using SB = detail::state_event_base_t;
using Q = E::wait_queue_type;

#include "vc_timer.h"
// ------------------------------------------------------------------ a waiter: any implementation of the waiter interface
static event_t* ev; static E* e;
static uint64_t n, m, c;          // waiting tasks, index of the first one that still wants to be woken, stored signals
static bool all_mode;
static uint64_t served; static bool any_served; static uint64_t n_notified;
struct waiter final : SB {
	uint64_t idx; uint64_t others; bool notified = false;
	bool on_notify(E* ep) override {
		vc_assert(ep == e, "a waiter is told the event that fired");
		vc_assert(!notified, "a waiter is notified once");
		notified = true; ++n_notified;
		if (all_mode) return vc::b("waiter_live");
		vc_assert(!any_served, "one signal wakes one task");
		if (idx < m) return false;
		if (idx == m || vc::b("waiter_live")) { any_served = true; served = idx; return true; }
		return false;
	}
	void on_cancel() noexcept override { vc_assert(false, "an event never cancels a waiter"); }
	bool on_timeout() override { vc_assert(false, "an event never times a waiter out"); return false; }
	~waiter() { vc_assert(others == 0, "a waiter is released only when nobody else holds it"); }
};
static vc::vlist<Q> R;
static SB* mk(uint64_t i, void*) {
	waiter* w = new waiter; w->idx = i;
	w->others = vc::count("holders"); if (i >= m) vc_assume(w->others >= 1);
	w->_count.store((intptr_t)(w->others + R.refs(i)));
	return w;
}
static uint64_t done0;
static void counts(uint64_t lo) {
	for (int i = 0; i < R.ntab; ++i) {
		waiter* w = (waiter*)R.tab[i].p;
		if (vc_freed(w)) { vc_assert(R.tab[i].idx < lo, "a waiting task is not released"); continue; }
		uint64_t want = w->others + (R.tab[i].idx >= lo ? R.refs(R.tab[i].idx) : 0);
		vc_assert((uint64_t)w->_count.load() == want, "references to a waiter balance");
	}
}
static void init() {
	n = vc::count("waiting"); m = vc::count("first_live"); vc_assume(m <= n);
	c = vc::count("stored_signals"); vc_assume(n == 0 || c == 0);
	e->_counter.store((intptr_t)c);
	R.init(&e->_wait_awakes, 0, n, mk);
	any_served = false; n_notified = 0;
}
static uint64_t counter() { return (uint64_t)e->_counter.load(); }
static void same() { R.check(0, n, "no effect outside the deciding critical section"); vc_assert(counter() == c && n_notified == 0 && vc::nev == 0, "no effect outside the deciding critical section"); }
static void hook(void* p, int kind, int) {
	if (p == (void*)&e->_counter && (kind == 1 || kind == 2 || kind == 3))
		vc_assert(vc_held(&e->_lock), "the number of stored signals changes only in the critical section");
}
static void any_event() {
	ev = new event_t(false); e = ev->_event.get();
	all_mode = false;
	vc::rely(&e->_lock, init, same);
	vc_guard(&e->_wait_awakes, sizeof(e->_wait_awakes), &e->_lock);
	vc_atomhook(hook);
}
static void fin() { vc_atomhook(nullptr); vc::rely_off(); vc_assert(vc_nheld() == 0, "no lock is kept"); }

