// C10 / C11 / C19: the scheduler, from every state: any number of ready states, any registry of tasks, any interference by other
// threads while a lock is not held.  The registry (std::unordered_map) is its contract vc_umap.h, timers are their contract (C09).
#include "vc_umap.h"
#define VC_REAL_SCHED
#include "vc_sched.h"
using namespace librf;
using SP = counted_ptr<state_base_t>; using VEC = std::vector<SP>; using MAP = scheduler_t::task_dictionary_type;
static scheduler_t* S; static scheduler_t* S2;
// ------------------------------------------------------------------ timers (contract)
static bool timer_idle, timer_seen_idle; static int n_update, n_clear;
static void no_locks(const char* w) { vc_assert(vc_nheld() == 0, w); }
static void t_update(timer_manager* t) { vc_assert(t == S->_timer.get(), "the timers of this scheduler"); no_locks("timer handlers run with no lock held"); ++n_update; }
static void t_clear(timer_manager* t) { no_locks("timer handlers run with no lock held"); ++n_clear; }
static bool t_empty(const timer_manager* t) { vc_assert(t == S->_timer.get(), "the timers of this scheduler"); timer_idle = vc::b("no timer"); timer_seen_idle = timer_idle; return timer_idle; }
VC_CONTRACT("librf::timer_manager::update\\(\\)", t_update, "C09")
VC_CONTRACT("librf::timer_manager::clear\\(\\)", t_clear, "C09")
VC_CONTRACT("librf::timer_manager::empty\\(\\) const", t_empty, "C09")
// growing a vector moves its elements to a larger array (std::vector, trusted): here in place
static void grow_new(VEC* v, VEC::iterator pos, state_base_t*& p) {
	vc_assert(pos == v->end() && v->_M_impl._M_finish == v->_M_impl._M_end_of_storage, "growing at the end of a full array");
	++v->_M_impl._M_end_of_storage; ::new ((void*)v->_M_impl._M_finish) SP(p); ++v->_M_impl._M_finish;
}
static void grow_move(VEC* v, VEC::iterator pos, SP&& p) {
	vc_assert(pos == v->end() && v->_M_impl._M_finish == v->_M_impl._M_end_of_storage, "growing at the end of a full array");
	++v->_M_impl._M_end_of_storage; ::new ((void*)v->_M_impl._M_finish) SP(std::move(p)); ++v->_M_impl._M_finish;
}
static void grow_copy(VEC* v, VEC::iterator pos, const SP& p) {
	vc_assert(pos == v->end() && v->_M_impl._M_finish == v->_M_impl._M_end_of_storage, "growing at the end of a full array");
	++v->_M_impl._M_end_of_storage; ::new ((void*)v->_M_impl._M_finish) SP(p); ++v->_M_impl._M_finish;
}
VC_CONTRACT("void std::vector<librf::counted_ptr<librf::state_base_t>.*>::_M_realloc_insert<librf::state_base_t\\*&>\\(.*\\)", grow_new, "trusted")
VC_CONTRACT("void std::vector<librf::counted_ptr<librf::state_base_t>.*>::_M_realloc_insert<librf::counted_ptr<librf::state_base_t>>\\(.*\\)", grow_move, "trusted")
VC_CONTRACT("void std::vector<librf::counted_ptr<librf::state_base_t>.*>::_M_realloc_insert<librf::counted_ptr<librf::state_base_t> const&>\\(.*\\)", grow_copy, "trusted")
// ------------------------------------------------------------------ states and tasks under ghost observation
static uint64_t nres, nrun; static int phase; static SP* A2; static uint64_t n2, c2; static bool batch;
static void arbitrary_run_queue(const char*);
struct gstate : state_base_t {
	uint64_t idx, others; bool freed_ = false; bool has; int n_resumed = 0;
	~gstate() { vc_assert(others == 0, "a state is freed only when nobody else holds it"); }
	void resume() override { resume_GHOST(); }
	void resume_GHOST() {
		no_locks("a task runs with no lock held");
		vc_assert(batch && idx == nres, "ready tasks are resumed in the order they were handed over, each once"); ++n_resumed; ++nres;
		vc_assert(S->_runing_states._M_impl._M_start == A2 && S->_runing_states._M_impl._M_finish == A2 + n2, "what is handed over while a batch runs stays for the next batch");
		arbitrary_run_queue("handed over by the task");
		// the task may give up or take references on itself
		others = vc::count("holders"); _count.store((intptr_t)(others + 1));
	}
	bool has_handler() const noexcept override { no_locks("a task is asked with no lock held"); return has; }
};
static gstate* last_made;
static SP* cell;
static gstate* new_state(uint64_t i) {
	gstate* g = new gstate; g->idx = i; g->others = vc::count("holders"); g->_count.store((intptr_t)(g->others + 1)); last_made = g; return g;
}
static void* mk_elem(uint64_t i, void*) { cell = (SP*)vc_alloc(sizeof(SP), "elem"); cell->_p = new_state(i); return cell; }
// capacity m of which k are in use
static SP* any_vec(VEC& v, uint64_t k, uint64_t m, const char* n) {
	SP* a = (SP*)vc_lazy_array(m, sizeof(SP), mk_elem, nullptr, n);
	v._M_impl._M_start = a; v._M_impl._M_finish = a + k; v._M_impl._M_end_of_storage = a + m; return a;
}
static uint64_t R, C; static SP* A;       // the ready queue when its lock was taken last
static void any_run() { R = vc::count("ready"); C = vc::count("capacity"); vc_assume(R <= C); A = any_vec(S->_runing_states, R, C + 1, "ready states"); S->_runing_states._M_impl._M_end_of_storage = A + C; }
static bool run_is(SP* a, uint64_t k) { return S->_runing_states._M_impl._M_start == a && S->_runing_states._M_impl._M_finish == a + k; }
static void arbitrary_run_queue(const char* w) { n2 = vc::count(w); A2 = any_vec(S->_runing_states, n2, n2 + 1, "handed over meanwhile"); }
static uint64_t M; static int tasks_freed; struct gtask; static gtask* freed_task;
struct gtask : task_t { int id = 0; ~gtask() { ++tasks_freed; freed_task = this; no_task_lock(); } static void no_task_lock() {} };
static std::unique_ptr<task_t> mk_task(state_base_t* const& k) { gtask* t = new gtask; t->_state._p = k; ++k->_count; return std::unique_ptr<task_t>(t); }
static scheduler_t* make(const char* n) {
	scheduler_t* s = vc::any_scheduler(n);
	::new ((void*)&s->_lock_running) spinlock(); ::new ((void*)&s->_lock_ready) spinlock();
	::new ((void*)&s->_runing_states) VEC(); ::new ((void*)&s->_cached_states) VEC(); ::new ((void*)&s->_ready_task) MAP();
	::new ((void*)&s->_timer) timer_mgr_ptr(std::make_shared<timer_manager>());
	MAP::mk_value = mk_task;
	vc_guard(&s->_runing_states, sizeof(VEC), &s->_lock_running); vc_guard(&s->_ready_task, sizeof(MAP), &s->_lock_ready);
	return s;
}
// interference: what a lock protects is arbitrary when it is taken; what the operation leaves must be one change of what it found
static state_base_t* key; static int key_in, key_in2;   // 1: in the registry of S / S2, 0: not in it, -1: unknown
static int n_run, n_reg, n_reg2;
static void any_map(scheduler_t* s, int in) {
	s->_ready_task.any_GHOST(vc::count("registered"));
	if (key && in >= 0) s->_ready_task.known_GHOST(key, in == 1);
}
static void acquire_GHOST(void* l) {
	if (l == &S->_lock_running) { if (n_run) vc_assert(run_is(A, R), "one critical section changes the ready queue"); any_run(); ++n_run; }
	if (l == &S->_lock_ready) { if (n_reg) { vc_assert(S->_ready_task.kept_GHOST(nullptr), "one critical section changes the registry"); } any_map(S, key_in); ++n_reg; }
	if (S2 && l == &S2->_lock_ready) { if (n_reg2) vc_assert(S2->_ready_task.kept_GHOST(nullptr), "one critical section changes the registry"); any_map(S2, key_in2); ++n_reg2; }
}
static void start() { S = make("sch"); S2 = nullptr; key = nullptr; key_in = key_in2 = -1; n_run = n_reg = n_reg2 = 0; tasks_freed = 0; vc::on_acquire = acquire_GHOST; batch = false; }
static void fin() { vc::on_acquire = nullptr; vc_unguard(); no_locks("no lock is kept"); }
static gstate* fresh(uint64_t o) { gstate* g = new gstate; g->idx = ~0ull; g->others = o; g->_count.store((intptr_t)o); return g; }
// the ready queue is as it was found, with st appended
static void appended(state_base_t* st) {
	VEC& v = S->_runing_states;
	vc_assert(v._M_impl._M_start == A && v._M_impl._M_finish == A + R + 1, "a state handed over is appended to the ready queue, once");
	vc_assert(A[R].get() == st, "a state handed over is appended to the ready queue, once");
	if (R > 0) { uint64_t j = vc::u64("j"); vc_assume(j < R); vc_assert(((gstate*)A[j].get())->idx == j, "the states handed over before stay in place"); }
}
// ------------------------------------------------------------------ C10: handing over
VC_HARNESS(add) {
	start(); uint64_t o = vc::count("holders"); gstate* g = fresh(o);
	S->add_generator(g); fin();
	appended(g); vc_assert((uint64_t)g->_count.load() == o + 1, "the ready queue holds the state"); vc_assert(S->_cached_states.empty(), "the running batch is left alone"); vc_cover("added");
	if (vc_split(R == C)) vc_cover("grown");
}
static bool registered() { auto* e = S->_ready_task.at_GHOST(key); return e != nullptr; }
static bool check_registered;
static void run_acquire_GHOST(void* l) { if (l == &S->_lock_running) vc_assert(registered(), "a task is registered before it is handed over"); acquire_GHOST(l); }
VC_HARNESS(new_task) {
	start(); uint64_t o = vc::count("holders"); gstate* g = fresh(o); g->has = vc_choose("has something to run"); key = g; key_in = 0;
	gtask* t = new gtask; t->_state._p = g; g->_count.store((intptr_t)(o + 1));
	vc::on_acquire = run_acquire_GHOST;
	task_t* r = S->new_task(t); fin();
	vc_assert(r == t && g->_scheduler == S, "a started task belongs to the scheduler");
	vc_assert(registered() && S->_ready_task.at_GHOST(key)->second.get() == t && S->_ready_task.kept_GHOST(&key), "a started task is registered");
	vc_assert(tasks_freed == 0, "a started task stays alive");
	if (g->has) { vc_cover("runnable"); appended(g); vc_assert((uint64_t)g->_count.load() == o + 2, "holders balance"); }
	else { vc_cover("nothing to run"); vc_assert(n_run == 0 || run_is(A, R), "a state with nothing to run is not handed over"); vc_assert((uint64_t)g->_count.load() == o + 1, "holders balance"); }
}
// ------------------------------------------------------------------ C10: one batch
static void batch_check() {
	vc_assert(vc_k() <= R, "a batch has an end");
	if (vc_k() == 0) phase = vc_split(nres == 0) ? 0 : 1;
	if (phase == 0) {
		vc_assert(nres == vc_k(), "every ready task is resumed once, in order");
		if (last_made && !vc_freed(last_made)) vc_assert(last_made->_count.load() == (intptr_t)(last_made->others + 1), "a task is kept alive while it runs");
	} else {
		vc_assert(nres == R, "every ready task is resumed before the batch ends");
		if (last_made && vc_k() > 0 && !vc_freed(last_made) && last_made->idx + 1 == vc_k()) {
			 vc_assert(last_made->_count.load() == (intptr_t)last_made->others, "the batch lets go of every task it has run, once");
		}
	}
	vc_assert(run_is(A2, n2), "what is handed over while a batch runs stays for the next batch");
}
static void batch_havoc() { vc_assume(vc_k() <= R); if (phase == 0) { nres = vc_k(); arbitrary_run_queue("handed over so far"); } last_made = nullptr; }
static void batch_acquire_GHOST(void* l) { acquire_GHOST(l); }
static void batch_release_GHOST(void* l) {
	if (l != &S->_lock_running) return;
	if (R == 0) return;
	VEC& v = S->_runing_states; vc_assert(v.empty(), "the whole ready queue becomes the batch");
	arbitrary_run_queue("handed over by others");
}
VC_HARNESS(batch) {
	start(); nres = 0; n_update = 0; batch = true; n2 = 0; last_made = nullptr;
	// whatever another thread hands over before the queue is taken is part of the batch
	vc::on_release = batch_release_GHOST;
	SP* E = any_vec(S->_cached_states, 0, vc::count("spare"), "spare array");
	vc_loop_contract(batch_check, batch_havoc, "run_one_batch");
	bool more = S->run_one_batch();
	vc_loop_contract(nullptr, nullptr, nullptr);
	vc::on_release = nullptr; fin();
	vc_assert(n_update == 1, "due timers are called once per batch");
	vc_assert(n_run == 1, "the ready queue is taken once");
	vc_assert(more == (R != 0), "a batch tells whether it ran anything");
	vc_assert(S->_cached_states.empty(), "nothing is left of the batch");
	if (more) { vc_cover("ran"); vc_assert(nres == R, "every ready task is resumed"); vc_assert(run_is(A2, n2), "what is handed over while a batch runs stays for the next batch"); }
	else { vc_cover("idle"); vc_assert(nres == 0 && S->_runing_states.empty(), "nothing is lost"); }
}
// ------------------------------------------------------------------ C10: running until nothing is left
static bool seen_idle, seen_none; static uint64_t n_batches;
static bool one_batch_GHOST(scheduler_t* s) {
	if (batch) return s->run_one_batch();   // its own proof
	 vc_assert(s == S, "this scheduler"); no_locks("tasks run with no lock held"); bool r = vc::b("ran something"); if (vc_bound()) vc_assume(++n_batches <= 3); seen_idle = !r; seen_none = timer_seen_idle = false; return r; }
VC_CONTRACT("librf::scheduler_t::run_one_batch\\(\\)", one_batch_GHOST, "C10")
static void until_acquire_GHOST(void* l) { acquire_GHOST(l); if (l == &S->_lock_ready) seen_none = vc_split(S->_ready_task.size() == 0); }
VC_HARNESS(until_notask) {
	start(); seen_idle = seen_none = timer_seen_idle = false; vc::on_acquire = until_acquire_GHOST;
	vc_loop_contract([] {}, [] { seen_idle = vc::b("s1"); seen_none = vc::b("s2"); timer_seen_idle = vc::b("s3"); n_reg = 0; }, "run_until_notask");
	S->run_until_notask();
	vc_loop_contract(nullptr, nullptr, nullptr); fin();
	vc_assert(seen_idle && seen_none && timer_seen_idle, "running ends only when, after the last batch, no task is ready, registered or timed"); vc_cover("done");
}
VC_HARNESS(empty) {
	start(); bool e = S->empty(); fin();
	uint64_t tasks = S->_ready_task.size();
	vc_assert(n_reg == 1 && n_run == 1, "emptiness is read under the locks");
	if (e) vc_assert(tasks == 0 && R == 0 && timer_idle, "an empty scheduler has no ready, registered or timed task");
	else vc_assert(tasks != 0 || R != 0 || !timer_idle, "an empty scheduler says so");
	vc_assert(run_is(A, R) && S->_ready_task.kept_GHOST(nullptr), "asking changes nothing");
	if (e) vc_cover("empty"); else vc_cover("not empty");
}
VC_HARNESS(find) {
	start(); gstate* g = fresh(1); key = g; key_in = vc_choose("registered") ? 1 : 0;
	task_t* t = S->find_task(g); fin();
	if (key_in) { vc_cover("found"); vc_assert(t == S->_ready_task.at_GHOST(key)->second.get(), "a registered task is found"); } else { vc_cover("not found"); vc_assert(t == nullptr, "only a registered task is found"); }
	vc_assert(S->_ready_task.kept_GHOST(nullptr) && tasks_freed == 0, "asking changes nothing");
}
// ------------------------------------------------------------------ C10 / C11: leaving the registry
VC_HARNESS(finish) {
	start(); gstate* g = fresh(2); key = g; key_in = vc_choose("registered") ? 1 : 0;
	S->del_final(g); fin();
	vc_assert(!registered() && S->_ready_task.kept_GHOST(&key), "a finished task leaves the registry, the others stay");
	vc_assert(tasks_freed == key_in, "the task of a finished state is released exactly once");
	vc_assert(g->_count.load() == 2, "holders balance");
	if (key_in) vc_cover("registered"); else vc_cover("unknown");
}
VC_HARNESS(leave) {
	start(); gstate* g = fresh(2); key = g; key_in = vc_choose("registered") ? 1 : 0;
	auto* u = new std::unique_ptr<task_t>(S->del_switch(g)); fin();
	vc_assert(!registered() && S->_ready_task.kept_GHOST(&key), "a task that moves leaves the registry, the others stay");
	vc_assert(tasks_freed == 0, "a task that moves stays alive");
	if (key_in) { vc_cover("registered"); vc_assert(u->get() != nullptr && (*u)->_state.get() == g, "the task is handed over"); } else { vc_cover("unknown"); vc_assert(u->get() == nullptr, "there is no task to hand over"); }
}
VC_HARNESS(enter) {
	start(); gstate* g = fresh(3); key = g; key_in = 0; gtask* t = new gtask; t->_state._p = g;
	S->add_switch(std::unique_ptr<task_t>(t)); fin();
	vc_assert(registered() && S->_ready_task.at_GHOST(key)->second.get() == t && S->_ready_task.kept_GHOST(&key), "a task that moves is registered with its new scheduler"); vc_assert(tasks_freed == 0 && g->_count.load() == 3, "a task that moves stays alive");
	vc_cover("entered");
}
// ------------------------------------------------------------------ C11: asking every task to stop
using SV = std::vector<stop_source>;
struct gstop { uint64_t idx; int64_t sources; };                    // stands for the stop state of one task (its own contract: C14 / C15)
static SV* sv; static uint64_t npush, nreq, entry_n; static bool entry_possible, entry_pushed, stopping; static std::pair<state_base_t* const, std::unique_ptr<task_t>>* entry; static int entry_phase; static bool n_cleared;
static void* mk_source(uint64_t j, void*) { stop_source* s = (stop_source*)vc_alloc(sizeof(stop_source), "source"); gstop* g = new gstop; g->idx = j; g->sources = 1; s->state_ = (milk::concurrency::details::stop_state*)g; return s; }
static MAP::value_type* mk_entry(uint64_t i, void*) {
	gstate* g = fresh(1); gtask* t = new gtask; t->_state._p = g; entry_possible = vc_choose("can be stopped"); entry_pushed = false; entry_n = i;
	if (entry_possible) { gstop* x = new gstop; x->idx = ~0ull; x->sources = 1; t->_stop.state_ = (milk::concurrency::details::stop_state*)x; }
	auto* e = (MAP::value_type*)vc_alloc(sizeof(MAP::value_type), "entry"); ::new ((void*)e) MAP::value_type(g, std::unique_ptr<task_t>(t)); entry = e; return e;
}
static void sv_ctor(SV* v) { sv = v; npush = 0; v->_M_impl._M_start = v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = nullptr; }
static void sv_dtor(SV* v) { vc_assert(v == sv, "the collected sources are released"); sv = nullptr; }
static void sv_set() { if (!sv) return; stop_source* a = (stop_source*)vc_lazy_array(npush, sizeof(stop_source), mk_source, nullptr, "sources"); sv->_M_impl._M_start = a; sv->_M_impl._M_finish = sv->_M_impl._M_end_of_storage = a + npush; }
static void sv_push(SV* v, const stop_source* s) {
	vc_assert(v == sv && entry && s->state_ == ((gtask*)entry->second.get())->_stop.state_, "the stop source of a registered task");
	vc_assert(vc_held(&S->_lock_ready), "tasks are looked at under the lock of the registry");
	vc_assert(!entry_pushed, "each task is asked once"); entry_pushed = true; ++npush; sv_set();
}
static void sv_push_move(SV* v, stop_source&& s) { sv_push(v, &s); if (s.state_) --((gstop*)s.state_)->sources; s.state_ = nullptr; }
static stop_source* sv_emplace(SV* v, stop_source& s) { sv_push(v, &s); return &s; }
static stop_source* sv_emplace_c(SV* v, const stop_source& s) { sv_push(v, &s); return const_cast<stop_source*>(&s); }
static stop_source* sv_emplace_m(SV* v, stop_source&& s) { sv_push_move(v, std::move(s)); return &s; }
static void sv_reserve(SV*, size_t) {}
VC_CONTRACT("std::vector<(librf::|milk::|concurrency::)*stop_source, .*>::vector\\(\\)", sv_ctor, "trusted")
VC_CONTRACT("std::vector<(librf::|milk::|concurrency::)*stop_source, .*>::~vector\\(\\)", sv_dtor, "trusted")
VC_CONTRACT("std::vector<(librf::|milk::|concurrency::)*stop_source, .*>::push_back\\(.* const&\\)", sv_push, "trusted")
VC_CONTRACT("std::vector<(librf::|milk::|concurrency::)*stop_source, .*>::push_back\\(.*&&\\)", sv_push_move, "trusted")
VC_CONTRACT("(.* )?std::vector<(librf::|milk::|concurrency::)*stop_source, .*>::emplace_back<[^<>]*stop_source&>\\(.*\\)", sv_emplace, "trusted")
VC_CONTRACT("(.* )?std::vector<(librf::|milk::|concurrency::)*stop_source, .*>::emplace_back<[^<>]*stop_source const&>\\(.*\\)", sv_emplace_c, "trusted")
VC_CONTRACT("(.* )?std::vector<(librf::|milk::|concurrency::)*stop_source, .*>::emplace_back<[^<>]*stop_source>\\(.*\\)", sv_emplace_m, "trusted")
VC_CONTRACT("std::vector<(librf::|milk::|concurrency::)*stop_source, .*>::reserve\\(.*\\)", sv_reserve, "trusted")
static bool ss_request(milk::concurrency::details::stop_state* s) {
	no_locks("stop callbacks run with no lock held");
	vc_assert(((gstop*)s)->idx == nreq && ((gstop*)s)->sources > 0, "every task that can be stopped is asked once"); ++nreq; return vc::b("first request");
}
static void ss_add(milk::concurrency::details::stop_state* s) { ++((gstop*)s)->sources; }
static void ss_del(milk::concurrency::details::stop_state* s) { vc_assert(((gstop*)s)->sources > 0, "a source is given up once"); --((gstop*)s)->sources; }
VC_CONTRACT(".*details::stop_state::request_stop\\(\\)", ss_request, "C14")
VC_CONTRACT(".*details::stop_state::add_source_reference\\(\\)", ss_add, "C15")
VC_CONTRACT(".*details::stop_state::remove_source_reference\\(\\)", ss_del, "C15")
static uint64_t NE;
static void stop_check() {
	if (vc_k() == 0) ++entry_phase;
	if (entry_phase == 1) {
		vc_assert(vc_k() <= NE && nreq == 0, "every task is looked at");
		if (entry && vc_k() > 0 && entry_n + 1 == vc_k()) vc_assert(entry_pushed == entry_possible, "exactly the tasks that can be stopped are asked");
	} else { vc_assert(nreq == vc_k() && vc_k() <= npush, "every task that can be stopped is asked once"); }
}
static void stop_havoc() { entry = nullptr; if (entry_phase == 1) { vc_assume(vc_k() <= NE); npush = vc::count("can be stopped"); vc_assume(npush <= vc_k()); sv_set(); } else { nreq = vc_k(); vc_assume(vc_k() <= npush); } }
static void stop_acquire_GHOST(void* l) { acquire_GHOST(l); if (l == &S->_lock_ready) { NE = S->_ready_task.rest; } }
VC_HARNESS(stop_all) {
	start(); MAP::mk_entry = mk_entry; sv = nullptr; npush = nreq = 0; entry_phase = 0; n_clear = 0; entry = nullptr; vc::on_acquire = stop_acquire_GHOST;
	vc_loop_contract(stop_check, stop_havoc, "request_stop_all");
	S->request_stop_all_if_possible();
	vc_loop_contract(nullptr, nullptr, nullptr); fin();
	vc_assert(n_reg == 1, "the registry is looked at once"); vc_assert(nreq == npush, "every task that can be stopped is asked");
	vc_assert(n_clear == 1, "the timers are cancelled"); vc_assert(S->_ready_task.n == NE && !S->_ready_task.clobbered && tasks_freed == 0, "a task that is asked to stop stays registered");
	vc_assert(sv == nullptr, "the collected sources are released"); vc_cover("asked");
}
// ------------------------------------------------------------------ C11: moving to another scheduler
using SF = state_future_t;
static SF* sw_self; static SF* sw_parent; static scheduler_t* sw_to; static int n_sw;
static bool sw_GHOST(SF* s, scheduler_t* to) {
	if (s == sw_self) return s->switch_scheduler_await_suspend(to);   // its own proof
	vc_assert(s == sw_parent && to == sw_to, "the awaiting task moves along"); vc_assert(n_sw == 0, "the awaiting task moves once"); ++n_sw;
	return vc::b("parent moved");
}
VC_CONTRACT("librf::state_future_t::switch_scheduler_await_suspend\\(librf::scheduler_t\\*\\)", sw_GHOST, "C11")
static void start2() { start(); S2 = make("sch2"); }
static int tasks_at_move;
static void moving_GHOST(void* l) { vc_assert(tasks_freed == 0, "a task that moves stays alive"); acquire_GHOST(l); }
template<class ST> static void switch_(ST* s, SF* par) {
	int at = vc_choose("unscheduled") ? 0 : vc_choose("already there") ? 1 : 2;
	s->_scheduler = at == 0 ? nullptr : at == 1 ? S : S2; sw_to = S; n_sw = 0;
	key = s; key_in = at == 1 ? -1 : 0; key_in2 = vc_choose("a task of its own") ? 1 : 0;
	vc::on_acquire = moving_GHOST; uint64_t refs = (uint64_t)s->_count.load();
	bool moved = s->switch_scheduler_await_suspend(S); fin();
	vc_assert(moved == (at != 1), "moving to the scheduler a task is on does nothing");
	vc_assert(s->_scheduler == S, "the task belongs to the scheduler it moved to");
	vc_assert(tasks_freed == 0, "a task that moves stays alive");
	if (at == 2) {
		vc_cover("moved"); vc_assert(n_reg2 == 1, "the task leaves the registry of its old scheduler"); vc_assert(S2->_ready_task.at_GHOST(key) == nullptr && S2->_ready_task.kept_GHOST(&key), "only this task leaves");
		if (key_in2) { vc_cover("task moved"); vc_assert(n_reg == 1 && registered() && (*S->_ready_task.at_GHOST(key)).second->_state.get() == s && S->_ready_task.kept_GHOST(&key), "exactly this task is registered with its new scheduler"); }
		else vc_assert(n_reg == 0 || (!registered() && S->_ready_task.kept_GHOST(nullptr)), "there is no task to register");
		vc_assert((uint64_t)s->_count.load() == refs + key_in2, "holders balance");
	} else {
		vc_cover("not moved"); vc_assert(n_reg == 0 || S->_ready_task.kept_GHOST(nullptr), "nothing is registered twice"); vc_assert(n_reg2 == 0, "another scheduler is left alone"); vc_assert((uint64_t)s->_count.load() == refs, "holders balance");
	}
	vc_assert(n_run == 0, "moving does not make a task ready"); vc_assert(vc::resumes == 0, "moving does not run a task");
	if (at == 1) vc_assert(n_sw == 0, "moving to the scheduler a task is on does nothing"); else vc_assert(n_sw == (par ? 1 : 0), "the awaiting task moves along");
}
VC_HARNESS(switch_future) {
	start2(); SF* s = SF::_Alloc_state<state_t<int>>(false); s->_count.store((intptr_t)(1 + vc::count("holders")));
	sw_self = s; sw_parent = nullptr; if (vc_choose("awaited by a task")) { sw_parent = SF::_Alloc_state<state_t<int>>(false); sw_parent->lock(); s->_parent = sw_parent; if (vc_choose("nested deeper")) { SF* up = SF::_Alloc_state<state_t<int>>(false); up->lock(); sw_parent->_parent = up; } }
	switch_(s, sw_parent);
}
VC_HARNESS(switch_generator) {
	start2(); auto* s = state_generator_t::_Alloc_state(); s->_count.store((intptr_t)(1 + vc::count("holders"))); sw_self = sw_parent = nullptr;
	switch_(s, nullptr);
}
VC_HARNESS(via) {
	start(); auto* tf = vc::task_frame<promise_t<int>>(S); SF* ts = tf->promise.get_state(); bool same = vc_choose("already there");
	S2 = make("from"); key = ts; key_in = same ? 1 : 0; key_in2 = same ? -1 : 1; ts->_scheduler = same ? S : S2; sw_self = ts; sw_parent = nullptr; sw_to = S;
	auto* aw = new switch_scheduler_awaitor(via(S)); vc_assert(!aw->await_ready(), "via");
	bool wait = aw->await_suspend(vc::handle(tf)); fin();
	if (same) { vc_cover("goes on"); vc_assert(!wait && n_run == 0, "a task that is already there goes on"); vc_assert(ts->_count.load() == 1, "holders balance"); }
	else {
		vc_cover("moves"); vc_assert(wait, "a task that moves waits for its new scheduler"); vc_assert(ts->_scheduler == S && registered(), "the task belongs to the scheduler it moved to");
		vc_assert(n_run == 1 && S->_runing_states._M_impl._M_finish == A + R + 1, "a task that moves is made ready once, on its new scheduler");
		auto* w = static_cast<state_t<void>*>((SF*)A[R].get()); vc_assert(w->_coro.address() == (void*)tf && w->_scheduler == S && w->_count.load() == 1, "what is made ready is the task"); vc_assert(w->_has_value.load() == SF::result_type::Value, "co_await via returns");
	}
	vc_assert(vc::resumes == 0, "a task is resumed by its scheduler only");
}
// ------------------------------------------------------------------ C10: giving way
VC_HARNESS(yield_) {
	start(); auto* tf = vc::task_frame<promise_t<int>>(S); SF* ts = tf->promise.get_state(); key = ts;
	if (vc_choose("nested task")) { SF* root = SF::_Alloc_state<state_t<int>>(false); root->lock(); root->_scheduler = S; ts->_parent = root; ts->_scheduler = nullptr; }
	auto aw = librf::yield(); vc_assert(!aw.await_ready(), "a task that gives way suspends");
	bool wait = aw.await_suspend(vc::handle(tf)); fin();
	vc_assert(wait && n_run == 1 && n_reg == 0 && S->_runing_states._M_impl._M_start == A && S->_runing_states._M_impl._M_finish == A + R + 1, "a task that gives way is made ready again, once, behind the others");
	auto* w = static_cast<state_t<void>*>((SF*)A[R].get()); vc_assert(w->_coro.address() == (void*)tf && w->_count.load() == 1 && w->_parent == ts, "what is made ready is the task");
	vc_assert(vc::resumes == 0, "a task is resumed by its scheduler only"); vc_cover("gives way");
}
VC_HARNESS(current) {
	start(); auto* tf = vc::task_frame<promise_t<int>>(S); SF* ts = tf->promise.get_state(); SF* root = ts;
	if (vc_choose("nested task")) { root = SF::_Alloc_state<state_t<int>>(false); root->lock(); root->_scheduler = S; ts->_parent = root; if (vc_choose("inherits")) ts->_scheduler = nullptr; }
	key = root; key_in = 1;
	{ auto a = get_current_scheduler(); vc_assert(!a.await_ready() && !a.await_suspend(vc::handle(tf)) && a.await_resume() == S, "the scheduler of a task"); }
	{ auto a = get_root_state(); vc_assert(!a.await_ready() && !a.await_suspend(vc::handle(tf)) && a.await_resume() == root, "the root of a task"); }
	{ auto a = get_current_task(); vc_assert(!a.await_ready() && !a.await_suspend(vc::handle(tf)) && a.await_resume() == S->_ready_task.at_GHOST(key)->second.get(), "the task object of a task"); }
	fin(); vc_assert(n_run == 0 && vc::resumes == 0, "asking changes nothing"); vc_cover("current");
}
// ------------------------------------------------------------------ C11: whole tasks: real compiled bodies on a real scheduler object
static int runs, ends, ctx_live; static bool in_order;
struct ctx { int id; explicit ctx(int i) : id(i) { ++ctx_live; } ctx(const ctx& o) : id(o.id) { ++ctx_live; } ctx(ctx&& o) : id(o.id) { ++ctx_live; } ~ctx() { --ctx_live; }
	future_t<int> operator()() const { ctx local(id); ++runs; co_await librf::yield(); vc_assert(ctx_live >= 2, "the function object of a task lives as long as the task"); ++ends; co_return 1; } };
static future_t<int> inner() { co_await librf::yield(); co_return 7; }
static future_t<int> plain_body(bool thr) { ctx local(0); ++runs; co_await librf::yield(); int x = co_await inner(); vc_assert(x == 7, "a nested task returns its value"); if (thr) throw 1; ++ends; co_return x; }
static generator_t<int> gen_body() { ctx local(0); ++runs; co_yield 1; ++ends; co_return 2; }
static state_base_t* start_one_GHOST(scheduler_t* s, int kind) {
	task_t* t;
	if (kind == 0) t = *s + plain_body(false); else if (kind == 1) t = *s + ctx(1); else if (kind == 4) { const ctx named(1); t = *s + named; } else if (kind == 3) t = *s + plain_body(true); else { t = *s + gen_body(); }
	return t->_state.get();
}
VC_HARNESS(whole_task) {
	vc::on_acquire = nullptr; S = S2 = nullptr; batch = true; uint64_t mark = vc_mark(); int d0 = ctx_live; runs = ends = 0;
	MAP::mk_value = mk_task;
	auto* s = S = new scheduler_t;
	int kind = vc_choose("future") ? 0 : vc_choose("function object") ? 1 : vc_choose("const named function object") ? 4 : vc_choose("generator") ? 2 : 3; key = start_one_GHOST(s, kind);
	vc_assert(runs == 0, "a task does not run before its scheduler runs it"); vc_assert(s->_ready_task.size() == 1 && s->_ready_task.find(key) != s->_ready_task.end(), "a started task is registered");
	int i = 0; while (ends == 0 && i < 8) { vc_assert(s->_ready_task.size() == 1 && !s->_runing_states.empty(), "a task stays registered until it has ended"); s->run_one_batch(); ++i; if (kind == 3 && s->_ready_task.size() == 0) break; }
	vc_assert(runs == 1 && ends == (kind == 3 ? 0 : 1), "a task runs to its end once");
	for (i = 0; i < 3; ++i) s->run_one_batch();
	vc_assert(s->_ready_task.size() == 0 && s->_runing_states.empty() && s->_cached_states.empty(), "an ended task leaves the scheduler"); vc_assert(ctx_live == d0, "an ended task releases its function object and its locals, once");
	delete s;
	vc_assert(vc_leaks(mark) == 0, "an ended task releases everything once"); vc_cover("whole");
}
// ------------------------------------------------------------------ C19
namespace librf { extern __thread scheduler_t* th_scheduler_ptr; }
static scheduler_t* X; static int n_dead; static scheduler_t* dead;
static void set_current_GHOST(scheduler_t* s) { th_scheduler_ptr = s; }
static scheduler_t* dflt() { return &scheduler_t::g_scheduler; }
static scheduler_t* any_current() { S = S2 = nullptr; vc::on_acquire = nullptr; X = vc_choose("default") ? nullptr : vc::any_scheduler("installed"); set_current_GHOST(X); vc_assert(this_scheduler() == (X ? X : dflt()), "the current scheduler is the installed one, else the default"); return X; }
VC_HARNESS(local_new) {
	uint64_t mark = vc_mark(); any_current();
	alignas(16) char b[sizeof(local_scheduler_t)]; auto* l = ::new ((void*)b) local_scheduler_t; scheduler_t* mine = l->_scheduler_ptr;
	if (X) { vc_cover("already installed"); vc_assert(mine == nullptr && this_scheduler() == X, "an installed scheduler stays"); }
	else { vc_cover("installed"); vc_assert(mine != nullptr && this_scheduler() == mine && mine != dflt(), "a local scheduler installs a new one when there is none"); vc_assert(mine->_runing_states.empty() && mine->_cached_states.empty() && mine->_ready_task.size() == 0 && mine->_timer != nullptr, "a new scheduler is empty"); }
	if (!X) S = mine;
	l->~local_scheduler_t();
	vc_assert(this_scheduler() == (X ? X : dflt()), "a local scheduler that installed nothing changes nothing, one that did restores the default");
	if (X) vc_kill(X); set_current_GHOST(nullptr);
	vc_assert(vc_leaks(mark) == 0, "a local scheduler destroys the scheduler it created");
}
VC_HARNESS(local_given) {
	any_current(); scheduler_t* Y = vc_choose("same") && X ? X : vc::any_scheduler("given");
	alignas(16) char b[sizeof(local_scheduler_t)]; auto* l = ::new ((void*)b) local_scheduler_t(*Y);
	vc_assert(this_scheduler() == (X ? X : Y), "a given scheduler is installed when there is none");
	vc_assert(l->_scheduler_ptr == nullptr, "a given scheduler is not owned"); if (X) vc_cover("already installed"); else vc_cover("installed");
}
// any local scheduler object, whatever has been installed or destroyed since it was made
VC_HARNESS(local_end) {
	any_current(); bool created = vc_choose("created one");
	alignas(16) char b[sizeof(local_scheduler_t)]; auto* l = (local_scheduler_t*)b; scheduler_t* Y = nullptr;
	if (created) { scheduler_t* c = X; set_current_GHOST(vc::any_scheduler("tmp")); Y = new scheduler_t; set_current_GHOST(c); S = Y; if (vc_choose("still installed")) { X = Y; set_current_GHOST(Y); } }
	l->_scheduler_ptr = Y; scheduler_t* before = X;
	l->~local_scheduler_t();
	if (created) { vc_assert(vc_freed(Y), "a local scheduler destroys the scheduler it created"); vc_assert(this_scheduler() == (before == Y || !before ? dflt() : before), "a destroyed scheduler is not current"); vc_cover("created"); }
	else { vc_assert(this_scheduler() == (before ? before : dflt()), "a local scheduler that created nothing changes nothing"); vc_cover("created nothing"); }
}
VC_HARNESS(sched_life) {
	any_current(); uint64_t mark = vc_mark();
	auto* s = new scheduler_t; S = s; vc_assert(this_scheduler() == (X ? X : s), "a new scheduler is installed when there is none");
	scheduler_t* Y = X ? X : s; if (vc_choose("replaced meanwhile")) { Y = vc_choose("default") ? nullptr : vc::any_scheduler("later"); set_current_GHOST(Y); }
	n_clear = 0; delete s;
	vc_assert(this_scheduler() == (Y == s || !Y ? dflt() : Y), "a destroyed scheduler is not current, another one stays"); vc_cover("life");
}
