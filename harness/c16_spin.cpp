// C16: spinlock against its contract, under every interference of other threads after each of its atomic steps.
// Rely: a thread that does not own the lock never changes it while somebody owns it, except that the owner may release it.
// Guarantee (checked at each atomic write): 0 -> 1 by the step that makes this thread the owner, 1 -> 0 by the owner only.
#define VC_NO_LOCKS
#include <atomic>
#include <thread>
#include <chrono>
#include <cassert>
#include <vector>
#include "librf/librf.h"
#include "vc.h"
using namespace librf;
static spinlock* s;
static bool mine;               // this thread owns the lock
static int cur;                 // value before this thread's next atomic step
static int n_acq, n_rel, n_int;
static bool was_locked, was_free;   // some step of the call found the lock owned / free
static bool protected_seen;     // what the previous owner wrote is visible
static void interfere() {
	if (mine) return;           // nobody else changes a lock this thread owns
	int v = vc::b("locked_by_another") ? 1 : 0;
	if (vc_bound() && ++n_int > 3) vc_assume(v == 0);     // bounded stand-in: the owner lets go in the end
	s->lck.store(v, std::memory_order_relaxed);
	cur = v;
}
static void hook(void* p, int kind, int order) {
	if (kind == 5) return;
	vc_assert(p == (void*)&s->lck, "only the lock word is touched");
	int now = s->lck.load(std::memory_order_relaxed);
	if (cur) was_locked = true; else was_free = true;
	if (now != cur || kind == 1 || kind == 2 || kind == 3) {
		if (cur == 0 && now == 1) {
			vc_assert(!mine, "a thread takes a lock it does not own");
			vc_assert(kind == 2 || kind == 3, "a lock is taken by one atomic step");
			vc_assert(order == 1 || order >= 3, "taking the lock sees what the previous owner wrote (acquire)");
			mine = true; ++n_acq;
		} else if (cur == 1 && now == 0) {
			vc_assert(mine, "only the owner makes a lock free");
			vc_assert(order >= 2, "releasing the lock publishes what the owner wrote (release)");
			mine = false; ++n_rel;
		} else vc_assert(cur == now, "a lock word is either free or locked");
	}
	cur = now;
	interfere();
}
static bool may_wait;
static int yield_() { vc_assert(may_wait, "try_lock and unlock never wait"); return 0; }
VC_CONTRACT("sched_yield", yield_, "trusted")
VC_CONTRACT("nanosleep", yield_, "trusted")
static void any(bool own) {
	s = new spinlock;
	vc_assert(s->lck.load() == 0, "a new lock is free");
	mine = own; n_acq = n_rel = n_int = 0;
	if (own) { s->lck.store(1); cur = 1; } else { cur = 0; interfere(); }
	vc_atomhook(hook);
}
static void end_() { vc_atomhook(nullptr); }
static void lc_check() { vc_assert(!mine && n_acq == 0 && n_rel == 0, "loop: the lock is not yet taken"); }
static void lc_havoc() { interfere(); }
VC_HARNESS(lock) {
	any(false); may_wait = true;
	vc_loop_contract(lc_check, lc_havoc, "spinning");
	s->lock();
	vc_loop_contract(nullptr, nullptr, "");
	end_();
	vc_cover("lock taken");
	vc_assert(mine && n_acq == 1 && n_rel == 0 && s->lck.load() == 1, "lock() returns with the lock owned by the caller");
}
VC_HARNESS(try_lock) {
	any(false);
	cur = s->lck.load(std::memory_order_relaxed); was_locked = was_free = false;
	bool r = s->try_lock();
	end_();
	vc_assert(r == mine && n_acq == (r ? 1 : 0) && n_rel == 0, "try_lock succeeds exactly when it takes the lock");
	vc_assert(r ? was_free : was_locked, "try_lock takes a free lock and never one that is owned");
	if (r) { vc_cover("try_lock succeeds"); } else vc_cover("try_lock fails");
}
VC_HARNESS(unlock) {
	any(true);
	s->unlock();
	end_();
	vc_assert(!mine && n_rel == 1 && n_acq == 0, "unlock makes the lock free, once");
	vc_cover("unlock");
}
// lemma: every step allowed by the guarantee, of any thread, keeps "locked iff exactly one owner"
VC_HARNESS(one_owner_lemma) {
	uint64_t owners = vc::count("owners"); int v = vc::b("v");
	vc_assume(owners == (uint64_t)v);
	bool me = vc::b("stepping_thread_owns"); vc_assume(!me || owners >= 1);
	if (vc_choose("acquire")) { if (me || v != 0) return; v = 1; ++owners; }
	else { if (!me) return; v = 0; --owners; }
	vc_assert(owners == (uint64_t)v && owners <= 1, "at most one owner after any step");
	vc_cover("step");
}
