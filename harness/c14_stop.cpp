// C14 / C15: stop_state against its contract, under every interference of other threads after each atomic step.
// The state word is packed: stop requested | lock | token references | source references.
#define VC_NO_LOCKS
#include "librf/librf.h"
#include "vc.h"
using namespace milk::concurrency;
using SS = details::stop_state; using CB = details::stop_callback_base;
static SS* st; static uint64_t cur;             // the state, its word before this thread's next step
static int64_t myT, myS;                        // references this thread's objects own
static bool mine, gone, must_free;              // this thread holds the lock; the state may be freed by others; this thread must free it
static bool did_stop; static int n_acq, n_rel; static uint64_t seen; // last word seen by a load / failed or successful CAS
static bool stop_at_acq; static uint64_t T_at, S_at;
static int n_t_inc, n_t_dec, n_s_inc, n_s_dec;
static void (*on_acq)(); static void (*on_rel)(); static void (*other)(void*, int, int);
static bool f_stop(uint64_t w) { return w & 1; }
static bool f_lock(uint64_t w) { return (w >> 1) & 1; }
static uint64_t f_T(uint64_t w) { return (w >> 2) & 0x7fffffffu; }
static uint64_t f_S(uint64_t w) { return w >> 33; }
static uint64_t word(bool stop, bool lock, uint64_t T, uint64_t S) { return (uint64_t)stop | ((uint64_t)lock << 1) | (T << 2) | (S << 33); }
static uint64_t raw() { return st->state_.load(std::memory_order_relaxed); }
static uint64_t refs(const char* n) { uint64_t x = vc::u64(n); vc_assume(x < (1u << 29)); return x; }
// rely: other threads keep what this thread owns; stop is never taken back; a source comes only from a source, a reference only from a reference;
// while this thread holds the lock nobody else takes it or requests stop
static int n_int;
static void interfere() {
	if (vc_bound() && ++n_int > 2) { if (!mine && f_lock(cur)) { cur = word(f_stop(cur), false, f_T(cur), f_S(cur)); st->state_.store(cur, std::memory_order_relaxed); } return; }   // bounded stand-in: the others let go in the end
	uint64_t T = refs("tokens"), S = refs("sources");
	vc_assume((int64_t)T >= myT && (int64_t)S >= myS);
	vc_assume(f_S(cur) > 0 || S == 0);
	bool stop = f_stop(cur), lock = mine;
	if (!mine) { lock = vc::b("locked"); stop = vc::b("stop"); vc_assume(stop || !f_stop(cur)); vc_assume(stop == f_stop(cur) || f_S(cur) > 0); }
	cur = word(stop, lock, T, S);
	st->state_.store(cur, std::memory_order_relaxed);
}
static int delta(uint64_t a, uint64_t b) {
	if (vc_split(a == b)) return 0;
	if (vc_split(a + 1 == b)) return 1;
	vc_assert(a == b + 1, "one step changes one reference");
	return -1;
}
static void hook(void* p, int kind, int order) {
	if (p != (void*)&st->state_) { if (other) other(p, kind, order); return; }
	uint64_t now = raw();
	if (kind == 0 || kind == 3 || kind == 4) seen = cur;
	if (kind != 0 && kind != 4) {
		bool lk0 = f_lock(cur), lk1 = f_lock(now);
		int dT = delta(f_T(cur), f_T(now)), dS = delta(f_S(cur), f_S(now));
		vc_assert(dT == 0 || dS == 0, "one step changes one reference");
		vc_assert(kind != 1, "the state word changes by read-modify-write steps only");
		if (!lk0 && lk1) {
			vc_assert(!mine && (order == 1 || order >= 3), "the lock is taken by one acquiring step");
			mine = true; ++n_acq; stop_at_acq = f_stop(cur); T_at = f_T(cur); S_at = f_S(cur);
			vc_set_held(&st->state_, 1);
		} else if (lk0 && !lk1) {
			vc_assert(mine && order >= 2, "the lock is given back by its holder only, with release");
			if (on_rel) on_rel();
			mine = false; ++n_rel;
			vc_set_held(&st->state_, 0);
		} else vc_assert(lk0 == lk1, "lock bit");
		vc_assert(f_stop(now) || !f_stop(cur), "a stop request is never taken back");
		if (f_stop(now) && !f_stop(cur)) { vc_assert(!did_stop && mine, "a stop request is made once, with the lock"); did_stop = true; }
		if (dT < 0 || dS < 0) vc_assert(order == 3 || order == 4, "a reference is given up with release and acquire");
		myT += dT; myS += dS;
		if (dT > 0) ++n_t_inc; if (dT < 0) ++n_t_dec; if (dS > 0) ++n_s_inc; if (dS < 0) ++n_s_dec;
		vc_assert(myT >= 0 && myS >= 0, "only an own reference is given up");
	}
	cur = now;
	if (myT == 0 && myS == 0 && !mine) {
		// the last own reference is gone
		if (f_T(cur) == 0 && f_S(cur) == 0) must_free = true;
		else { gone = true; vc_kill(st); }
		return;
	}
	interfere();
	if (kind != 0 && kind != 4 && mine && on_acq && n_acq == n_rel + 1) { static int last = -1; if (last != n_acq) { last = n_acq; on_acq(); } }
}
static void any(int64_t T, int64_t S) {
	st = new SS; myT = T; myS = S;
	vc_assert(raw() == word(false, false, 0, 1) && st->head_ == nullptr, "a new state has one source, no token, no callback and no request");
	cur = word(false, false, 1, 1);
	interfere();
	n_int = 0; mine = gone = must_free = did_stop = false;
	vc_guard(&st->head_, 8, &st->state_);
}
// loop contract: the word is any word that keeps what this thread owns
static void word_check() { vc_assert(cur == raw() && (int64_t)f_T(cur) >= myT && (int64_t)f_S(cur) >= myS && (!mine || f_lock(cur)) && (!did_stop || f_stop(cur)), "loop: references kept"); }
static void word_havoc() {
	uint64_t T = refs("tokens"), S = refs("sources"); bool stop = vc::b("stop"), lock = vc::b("locked");
	vc_assume((int64_t)T >= myT && (int64_t)S >= myS && (!mine || lock) && (!did_stop || stop));
	cur = word(stop, lock, T, S); st->state_.store(cur, std::memory_order_relaxed);
}
static void go_() { vc_atomhook(hook); }
static void end_() {
	vc_atomhook(nullptr);
	vc_assert(!mine && n_acq == n_rel, "no lock is kept");
	if (must_free) { vc_cover("freed"); vc_assert(vc_freed(st), "the state is freed with its last reference"); }
	else if (!gone) vc_assert(!vc_freed(st), "the state lives while something refers to it");
}

// ---------------------------------------------------------------- registered callbacks
static int n_run; static CB* last_run; static bool run_locked;
static void (*on_run)(CB*);
struct cbx final : CB { cbx(void (*f)(CB*)) : CB(f) {} };
static void run_GHOST(CB* c) { ++n_run; last_run = c; vc_assert(!mine, "a callback runs without the lock"); if (on_run) on_run(c); }
static CB* first;          // element the head refers to, once looked at
static int n_el, n_wait;
static void* el(void* cell) {
	if ((vc_bound() && ++n_el > 3) || vc_choose("end of list")) return nullptr;
	cbx* c = new cbx(run_GHOST);
	c->prev = (CB**)cell;
	vc_set_lazy(&c->next, el, &c->next);
	vc_guard(&c->next, 8, &st->state_); vc_guard(&c->prev, 8, &st->state_);
	if (cell == (void*)&st->head_) first = c;
	return static_cast<CB*>(c);
}
static void any_list() { first = nullptr; vc_set_lazy(&st->head_, el, &st->head_); }

// ================================================================ C14: the request
static bool outstanding, finished, removed_; static uint64_t pops; static bool empty_at_rel;
static void req_acq() { any_list(); if (n_acq > 1) { vc_assert(!outstanding, "a callback is finished before the next one is taken"); } }
static void req_rel() {
	// what this critical section did: nothing, or took the first callback off
	vc_assert(did_stop && f_stop(cur), "the request is visible before any callback runs");
	empty_at_rel = st->head_ == nullptr;
	if (first && st->head_ != first) {
		vc_assert(!outstanding, "one callback at a time");
		vc_assert(first->prev == nullptr, "a callback that is taken off is marked");
		CB* sec = first->next;
		vc_assert(st->head_ == sec && (sec == nullptr || sec->prev == &st->head_), "exactly the first callback is taken off");
		outstanding = true; finished = removed_ = false; last_run = nullptr; n_run = 0;
	} else vc_assert(st->head_ == first, "the list changes only at its head");
}
static void req_run(CB* c) {
	vc_assert(outstanding && c == first && n_run == 1, "a callback that was taken off runs, once");
	vc_assert(!c->finished_executing.load(), "a running callback is not yet finished");
	vc_assert(st->signalling_ == std::this_thread::get_id(), "the running thread is known to the callback");
	// the callback may deregister itself: its memory is gone when it returns
	if (vc_choose("callback deregisters itself")) {
		vc_assert(c->is_removed != nullptr && !*c->is_removed, "a running callback can report its own deregistration");
		*c->is_removed = true; removed_ = true; outstanding = false; vc_kill(static_cast<cbx*>(c));
		vc_cover("self-deregistration");
	}
}
static void req_other(void* p, int kind, int order) {
	vc_assert(outstanding && first && p == (void*)&first->finished_executing && kind == 1, "only the callback that ran is marked finished");
	vc_assert(first->finished_executing.load() && n_run == 1 && order >= 2, "a callback is marked finished after it ran");
	vc_assert(first->is_removed == nullptr, "nothing of this run is left in the callback");
	outstanding = false;
	vc_kill(static_cast<cbx*>(first));   // a waiting deregistration may free it now
}
static void req_check() {
	vc_assert(!outstanding && n_acq == n_rel + (mine ? 1 : 0) && (did_stop || !mine), "loop: no callback is outstanding");
	word_check();
}
static void req_havoc() { word_havoc(); if (mine) any_list(); }
VC_HARNESS(request_stop) {
	any(0, 1);
	stop_source* src = (stop_source*)vc_alloc(sizeof(stop_source), "source"); src->state_ = st;
	on_acq = req_acq; on_rel = req_rel; on_run = req_run; other = req_other;
	go_();
	vc_loop_contract(req_check, req_havoc, "running the callbacks");
	bool r = src->request_stop();
	vc_loop_contract(nullptr, nullptr, "");
	end_();
	vc_assert(r == did_stop, "a stop request succeeds exactly when it is the one that made the request");
	vc_assert(!outstanding, "every callback taken off has run and is finished");
	if (r) { vc_cover("request made"); vc_assert(empty_at_rel, "a request ends when no callback is registered"); }
	else { vc_cover("already requested"); vc_assert(f_stop(seen) && n_acq == 0 && n_run == 0, "a second request has no effect"); }
	vc_assert(n_t_inc + n_t_dec + n_s_inc + n_s_dec == 0, "a request changes no reference");
}

// ================================================================ C14: registration
struct fn { void operator()() { user_GHOST(); } static void user_GHOST(); };
static int n_user; static bool user_dereg_ok;
void fn::user_GHOST() { ++n_user; vc_assert(!mine, "a callback runs without the lock"); vc_assert(f_stop(seen), "a callback runs only after a stop request"); }
using SC = stop_callback<fn>;
static SC* sc; static bool linked;
static void add_acq() { any_list(); (void)(st->head_ == nullptr); /* first: what the head refers to now */ vc_assert(!stop_at_acq && S_at > 0, "a callback is registered only while a stop can still be requested and has not been"); }
static void add_rel() {
	CB* c = static_cast<CB*>(sc);
	vc_assert(st->head_ == c && c->prev == &st->head_ && !linked, "a new callback is registered at the head of the list, once");
	vc_assert(c->next == first && (first == nullptr || first->prev == &c->next), "the other callbacks stay registered");
	linked = true;
}
static void spin_check() { vc_assert(!mine && n_acq == 0 && n_user == 0 && !linked, "loop: nothing done yet"); word_check(); }
static void spin_havoc() { word_havoc(); }
template<bool MOVE> static void add_() {
	any(1, 0);
	stop_token* t = (stop_token*)vc_alloc(sizeof(stop_token), "token"); t->state_ = st;
	sc = (SC*)vc_alloc(sizeof(SC), "callback");
	on_acq = add_acq; on_rel = add_rel;
	vc_loop_contract(spin_check, spin_havoc, "waiting for the lock");
	go_();
	if (MOVE) ::new (sc) SC(std::move(*t), fn()); else ::new (sc) SC(*t, fn());
	vc_loop_contract(nullptr, nullptr, "");
	end_();
	vc_assert(sc->state_ == (linked ? st : nullptr), "a callback that is registered, and only that, deregisters itself later");
	if (linked) { vc_cover("registered"); vc_assert(n_user == 0, "a registered callback does not run yet"); vc_assert(myT == (MOVE ? 1 : 2) && t->state_ == (MOVE ? nullptr : st), "a registered callback holds one reference"); }
	else {
		vc_assert(myT == 1 && t->state_ == st && n_acq == 0, "a callback that is not registered holds no reference");
		if (f_stop(seen)) { vc_cover("requested already"); vc_assert(n_user == 1, "a callback registered after the request runs at once, once"); }
		else { vc_cover("no stop possible"); vc_assert(n_user == 0 && f_S(seen) == 0, "a callback is dropped only when no stop can be requested any more"); }
	}
	vc_assert(myS == 0, "registration changes no source");
}
VC_HARNESS(add_callback) { add_<false>(); }
VC_HARNESS(add_callback_move) { add_<true>(); }
VC_HARNESS(add_callback_none) {
	stop_token t; SC c(t, fn()); SC d{stop_token(), fn()};
	vc_assert(n_user == 0 && c.state_ == nullptr && d.state_ == nullptr, "a callback on an empty token never runs");
	vc_cover("empty token");
}

// ================================================================ C14: deregistration
static bool listed, by_me, in_run, was_seen_finished; static bool rflag; static cbx* pred; static CB* succ; static bool unlinked;
static void rem_acq() {
	// by now a request may have taken the callback off
	CB* c = static_cast<CB*>(sc);
	listed = !by_me && !vc_choose("taken off by a request");
	if (!listed) {
		vc_assume(f_stop(cur));
		c->prev = nullptr; c->next = nullptr;
		st->signalling_ = by_me ? std::this_thread::get_id() : std::thread::id();
		if (by_me) c->is_removed = in_run ? &rflag : nullptr;
		c->finished_executing.store(by_me && !in_run);
		any_list();
		return;
	}
	CB** cell = &st->head_;
	if (!vc_choose("first in the list")) { pred = new cbx(run_GHOST); cell = &pred->next; any_list(); } else pred = nullptr;
	vc_guard(cell, 8, &st->state_);
	*cell = c; c->prev = cell;
	succ = nullptr;
	if (!vc_choose("last in the list")) { succ = new cbx(run_GHOST); succ->prev = &c->next; vc_set_lazy(&succ->next, el, &succ->next); }
	c->next = succ;
}
static void rem_rel() {
	CB* c = static_cast<CB*>(sc);
	if (!listed) return;
	CB** cell = pred ? &pred->next : &st->head_;
	vc_assert(*cell == succ && (succ == nullptr || succ->prev == cell), "a deregistered callback leaves the list, and only it");
	unlinked = true;
}
static void rem_other(void* p, int kind, int order) {
	CB* c = static_cast<CB*>(sc);
	vc_assert(p == (void*)&c->finished_executing && kind == 0 && !mine, "a deregistration only waits for the run to finish");
	if (c->finished_executing.load()) { vc_assert(order == 1 || order == 4, "the end of the run is seen with acquire"); was_seen_finished = true; }
	else if (!by_me && ((vc_bound() && ++n_wait > 2) || vc_choose("run finishes"))) c->finished_executing.store(true);
}
static void rem_check() { vc_assert(n_acq == n_rel && n_t_dec == 0 && !unlinked && !gone && !must_free, "loop: still waiting"); word_check(); }
VC_HARNESS(remove_callback) {
	any(1, 0);
	sc = (SC*)vc_alloc(sizeof(SC), "callback");
	sc->callback = run_GHOST; sc->state_ = st; sc->is_removed = nullptr; sc->finished_executing.store(false);
	by_me = vc_choose("request on this thread"); in_run = by_me && vc_choose("from inside the callback"); rflag = false;
	on_acq = rem_acq; on_rel = rem_rel; other = rem_other;
	vc_loop_contract(rem_check, word_havoc, "waiting");
	go_();
	sc->~SC();
	vc_loop_contract(nullptr, nullptr, "");
	end_();
	vc_assert(n_user == 0 && n_run == 0, "a deregistration runs nothing");
	vc_assert(myT == 0 && n_t_dec == 1 && n_t_inc + n_s_inc + n_s_dec == 0, "a deregistered callback gives up its reference, once");
	if (listed) { vc_cover("deregistered before the request"); vc_assert(unlinked, "a deregistered callback leaves the list"); }
	else if (by_me) { vc_cover("deregistered by the requesting thread"); vc_assert(!in_run || rflag, "the running request learns that the callback is gone"); }
	else { vc_cover("deregistered during the run"); vc_assert(was_seen_finished, "a deregistration waits until a run on another thread has finished"); }
	if (in_run) vc_cover("deregistered inside itself");
}

// ================================================================ C15: handles
template<class H> static H* h(SS* s) { H* p = (H*)vc_alloc(sizeof(H), "handle"); p->state_ = s; return p; }
static constexpr bool tok(stop_token*) { return true; }
static constexpr bool tok(stop_source*) { return false; }
template<class H> static void own(int k) { if (tok((H*)nullptr)) any(k, 0); else any(0, k); }
template<class H> static int64_t have() { return tok((H*)nullptr) ? myT : myS; }
template<class H> static void untouched() { vc_assert((tok((H*)nullptr) ? myS : myT) == 0 && n_acq == 0, "the other kind of reference and the lock are left alone"); }
template<class H> static void copy_() {
	own<H>(1); bool empty = vc_choose("empty");
	H* a = h<H>(empty ? nullptr : st); H* b = (H*)vc_alloc(sizeof(H), "handle");
	go_(); ::new (b) H(*a); end_();
	vc_assert(b->state_ == a->state_ && have<H>() == (empty ? 1 : 2), "a copy refers to the same state and counts"); untouched<H>();
	vc_cover("copy");
}
template<class H> static void move_() {
	own<H>(1); bool empty = vc_choose("empty"); SS* s = empty ? nullptr : st;
	H* a = h<H>(s); H* b = (H*)vc_alloc(sizeof(H), "handle");
	go_(); ::new (b) H(std::move(*a)); a->~H(); end_();
	vc_assert(b->state_ == s && a->state_ == nullptr && have<H>() == 1, "a move hands the reference over"); untouched<H>();
	vc_cover("move");
}
template<class H> static void dtor_() {
	own<H>(1); bool empty = vc_choose("empty");
	H* a = h<H>(empty ? nullptr : st);
	go_(); a->~H(); end_();
	vc_assert(have<H>() == (empty ? 1 : 0), "a handle that goes away gives up its reference, once");
	if (gone) vc_cover("others remain");
}
template<class H, bool MV> static void assign_() {
	bool samest = vc_choose("same state"), e1 = vc_choose("target empty"), e2 = vc_choose("source empty");
	// the target's old state is the tracked one (or, second variant, the source's)
	bool track_target = vc_choose("track target");
	own<H>(samest ? 2 : 1);
	SS* tr = st; SS* oth = new SS; oth->state_.store(word(false, false, 1000, 1000));
	H* a = h<H>(e1 ? nullptr : (samest || track_target) ? tr : oth);
	H* b = h<H>(e2 ? nullptr : (samest || !track_target) ? tr : oth);
	int64_t held = (a->state_ == tr) + (b->state_ == tr);
	if (tok((H*)nullptr)) myT = held + 1; else myS = held + 1;     // one more reference elsewhere keeps it alive
	interfere();
	other = [](void*, int, int) {};
	SS* bs = b->state_;
	go_(); if (MV) *a = std::move(*b); else *a = *b; vc_atomhook(nullptr);
	vc_assert(a->state_ == bs && (MV ? b->state_ == nullptr : b->state_ == bs), "an assignment refers to the assigned state");
	vc_assert(have<H>() == 1 + (a->state_ == tr) + (b->state_ == tr), "an assignment keeps the count of references"); untouched<H>();
	uint64_t w = oth->state_.load();
	vc_assert((int64_t)(tok((H*)nullptr) ? f_T(w) : f_S(w)) - 1000 == (a->state_ == oth) + (b->state_ == oth) - (e1 || samest || track_target ? 0 : 1) - (e2 || samest || !track_target ? 0 : 1), "an assignment keeps the other state's count");
	vc_cover("assign");
}
VC_HARNESS(token_copy) { copy_<stop_token>(); }
VC_HARNESS(token_move) { move_<stop_token>(); }
VC_HARNESS(token_dtor) { dtor_<stop_token>(); }
VC_HARNESS(token_assign) { assign_<stop_token, false>(); }
VC_HARNESS(token_move_assign) { assign_<stop_token, true>(); }
VC_HARNESS(source_copy) { copy_<stop_source>(); }
VC_HARNESS(source_move) { move_<stop_source>(); }
VC_HARNESS(source_dtor) { dtor_<stop_source>(); }
VC_HARNESS(source_assign) { assign_<stop_source, false>(); }
VC_HARNESS(source_move_assign) { assign_<stop_source, true>(); }
VC_HARNESS(self_assign) {
	any(1, 1);
	stop_token* t = h<stop_token>(st); stop_source* s = h<stop_source>(st);
	go_(); *t = *(stop_token*)t; *s = *(stop_source*)s; *t = std::move(*t); *s = std::move(*s); t->swap(*t); s->swap(*s); vc_atomhook(nullptr);
	vc_assert(t->state_ == st && s->state_ == st && myT == 1 && myS == 1, "assigning a handle to itself changes nothing");
	vc_cover("self");
}
VC_HARNESS(get_token) {
	any(0, 1);
	stop_source* s = h<stop_source>(st); stop_source* e = h<stop_source>(nullptr);
	go_(); stop_token* t = new stop_token(s->get_token()); stop_token* u = new stop_token(e->get_token()); end_();
	vc_assert(t->state_ == st && myT == 1 && myS == 1 && u->state_ == nullptr, "a token of a source refers to its state and counts");
	vc_cover("get_token");
}
// making a stop state: another thread may do the same with the same source meanwhile; one state remains
static stop_source* mk_src; static SS* mk_other; static int n_made; static SS* made[2];
static void mk_state_GHOST(SS* p) {
	::new (p) SS();
	if (!mk_src) return;
	if (n_made < 2) made[n_made] = p; ++n_made;
	if (!mk_other && mk_src->state_ == nullptr && vc_choose("another thread makes a state first")) { auto* ms = mk_src; mk_src = nullptr; mk_other = new SS; mk_src = ms; mk_src->state_ = mk_other; }
}
VC_CONTRACT("milk::concurrency::details::stop_state::stop_state\\(\\)", mk_state_GHOST, "C15")
VC_HARNESS(make_possible) {
	bool empty = vc_choose("empty");
	any(0, 1);
	stop_source* s = h<stop_source>(empty ? nullptr : st);
	mk_src = s; s->make_sure_possible(); mk_src = nullptr;
	vc_assert(s->state_ != nullptr && s->stop_possible(), "a source that was made possible has a state");
	if (!empty) vc_assert(s->state_ == st, "a source that has a state keeps it");
	else {
		for (int i = 0; i < n_made && i < 2; ++i) vc_assert(made[i] == s->state_ || vc_freed(made[i]), "a state that is not used is freed");
		if (mk_other) { vc_cover("lost the race"); vc_assert(s->state_ == mk_other, "the state another thread made is kept"); }
		vc_assert(s->state_->state_.load() == word(false, false, 0, 1), "a new state has one source"); SS* x = s->state_; s->~stop_source(); vc_assert(vc_freed(x), "the new state is freed with its source"); }
	vc_cover("make_sure_possible");
}
template<class H> static void swap_() {
	any(tok((H*)nullptr) ? 1 : 0, tok((H*)nullptr) ? 0 : 1); SS* oth = new SS;
	bool e1 = vc_choose("first empty"), e2 = vc_choose("second empty"); SS* s1 = e1 ? nullptr : st; SS* s2 = e2 ? nullptr : oth;
	H* a = h<H>(s1); H* b = h<H>(s2); uint64_t w = oth->state_.load();
	go_(); if (vc_choose("std")) std::swap(*a, *b); else a->swap(*b); bool eq = *a == *b, ne = *a != *b; vc_atomhook(nullptr);
	vc_assert(a->state_ == s2 && b->state_ == s1 && oth->state_.load() == w && have<H>() == 1, "a swap exchanges the states and keeps every count"); untouched<H>();
	vc_assert(eq == (e1 && e2) && ne == !eq, "handles are equal exactly when they refer to the same state"); vc_cover("swap");
}
VC_HARNESS(token_swap) { swap_<stop_token>(); }
VC_HARNESS(source_swap) { swap_<stop_source>(); }
// a task makes its stop state when it is first asked for, and every handle of it refers to that state
struct tk : librf::task_t {};
VC_HARNESS(task_source) {
	uint64_t mark = vc_mark(); SS* s;
	{
		auto* t = new tk; vc_assert(t->_stop.state_ == nullptr, "a new task has no stop state");
		if (vc_choose("asked early")) vc_assert(!t->request_stop_if_possible() && t->_stop.state_ == nullptr, "a task nobody asked for its stop state cannot be stopped, and stays so");
		bool direct = vc_choose("stopped before a token exists");
		if (direct) vc_assert(t->request_stop(), "the first request succeeds");
		stop_token a = t->get_stop_token(); s = t->_stop.state_;
		vc_assert(s && a.state_ == s && a.stop_possible() && a.stop_requested() == direct, "a token of a task refers to its stop state");
		stop_token b = t->get_stop_token(); vc_assert(b.state_ == s && &t->get_stop_source() == &t->_stop && t->_stop.state_ == s, "a task has one stop state");
		bool r = vc_choose("if possible") ? t->request_stop_if_possible() : t->request_stop();
		vc_assert(r == !direct && a.stop_requested() && b.stop_requested() && t->_stop.stop_requested(), "a request reaches every token of the task, once");
		vc_assert(!(vc_choose("again if possible") ? t->request_stop_if_possible() : t->request_stop()), "a request reaches every token of the task, once");
		delete static_cast<librf::task_t*>(t);
		vc_assert(!vc_freed(s) && a.stop_requested() && a.stop_possible(), "the stop state outlives its task while a token refers to it");
	}
	vc_assert(vc_freed(s) && vc_leaks(mark) == 0, "the stop state is freed with its last reference"); vc_cover("task");
}
static int n_cb;
VC_HARNESS(make_callback) {
	uint64_t mark = vc_mark(); SS* s; n_cb = 0;
	{
		stop_source src; s = src.state_; stop_token t = src.get_token(), none;
		bool mv = vc_choose("token moved"), before = vc_choose("requested before"), removed = vc_choose("removed before the request");
		auto f = [&] { ++n_cb; vc_assert(src.stop_requested(), "a callback runs after the request"); };
		if (before) (void)src.request_stop();
		auto cb = mv ? librf::make_stop_callback(std::move(t), f) : librf::make_stop_callback(t, f);
		auto cb0 = librf::make_stop_callback(none, f);
		vc_assert(n_cb == (before ? 1 : 0), "a callback runs at its registration exactly when a stop was requested");
		if (removed) cb.reset();
		vc_assert(src.request_stop() == !before && n_cb == (before || !removed ? 1 : 0), "a callback runs once, unless it was removed before");
		(void)src.request_stop(); vc_assert(n_cb == (before || !removed ? 1 : 0), "a callback runs once, unless it was removed before");
		if (vc_choose("source first")) { src = stop_source(nostopstate); }
		vc_cover("callback");
	}
	vc_assert(vc_freed(s) && vc_leaks(mark) == 0, "the stop state is freed with its last reference");
}
VC_HARNESS(queries) {
	bool k = vc_choose("token"); any(k ? 1 : 0, k ? 0 : 1);
	stop_token* t = h<stop_token>(k ? st : nullptr); stop_source* s = h<stop_source>(k ? nullptr : st);
	go_();
	bool r = k ? t->stop_requested() : s->stop_requested();
	uint64_t w = seen;
	bool p = k ? t->stop_possible() : s->stop_possible();
	uint64_t w2 = seen;
	end_();
	vc_assert(r == f_stop(w), "a handle reports whether a stop was requested");
	if (k) vc_assert(p == (f_stop(w2) || f_S(w2) > 0), "a stop is possible while a source remains or once it was requested");
	else vc_assert(p, "a source can request a stop");
	if (r) { vc_assert(f_stop(w2), "once requested, requested for ever"); vc_cover("requested"); } else vc_cover("not requested");
	vc_assert(n_acq == 0 && myT == (k ? 1 : 0) && myS == (k ? 0 : 1), "asking changes nothing");
	stop_token nt; stop_source ns(nostopstate);
	vc_assert(!nt.stop_requested() && !nt.stop_possible() && !ns.stop_requested() && !ns.stop_possible() && !ns.request_stop(), "an empty handle knows no stop");
}
// lemma: steps of any thread keep: the state exists exactly while tokens + sources > 0
VC_HARNESS(word_layout) {
	uint64_t T = refs("tokens"), S = refs("sources"); bool s = vc::b("stop"), l = vc::b("lock");
	uint64_t w = word(s, l, T, S);
	vc_assert(f_T(w) == T && f_S(w) == S && f_stop(w) == s && f_lock(w) == l, "the packed counts do not overlap");
	vc_assert(SS::kStopRequestedFlag == 1 && SS::kLockedFlag == 2 && SS::kTokenRefIncrement == 4 && SS::kSourceRefIncrement == (1ull << 33), "packing of the state word");
	vc_cover("layout");
}
