// C17 / C18: when_all and when_any.  The shared counter from every state and under every interference; each operation's connector
// (the compiled coroutine) with an operation of unknown behaviour; the fan-out over any number of operations by loop contract;
// whole tasks under a first-in first-out scheduler.
#include "vc_sched.h"
using namespace librf;
using W = detail::state_when_t; using SF = state_future_t;
static const char* err_str(error_code, const char*) { return "error"; }
VC_CONTRACT("librf::get_error_string\\(.*\\)", err_str, "trusted")
static scheduler_t* sch; static scheduler_t* asch;   // of the operations / of the awaiting task
// ------------------------------------------------------------------ the counter
static W* st; static int64_t left_, last_; static int n_acq; static bool awaited; static void* acoro;
// other operations complete and the awaiting task may start to wait while this operation does not hold the lock; at least `mine`
// operations (the ones of this thread) are still outstanding
static int64_t mine; static int n_woken;
static bool any_mode, other_first;   // when_any: one notification, by the first operation
static void any_counter() {
	left_ = (int64_t)vc::count("outstanding"); if (any_mode) vc_assume(other_first ? left_ <= 1 : left_ == 1); else vc_assume(left_ >= mine && (n_acq == 0 || left_ <= last_)); last_ = left_;
	st->_counter.store(left_, std::memory_order_relaxed);
	if (!awaited && vc_choose("awaited")) { awaited = true; acoro = vc::coro(); st->_coro = coroutine_handle<>::from_address(acoro); st->_scheduler = asch; }
}
static void when_acquire(void* l) {
	if (!st || l != &st->_lock) return;
	if (n_acq) vc_assert(st->_counter.load(std::memory_order_relaxed) == left_ && st->_coro.address() == (awaited ? acoro : nullptr), "one critical section changes the state");
	any_counter(); ++n_acq;
}
static void when_release(void* l) { vc_assert(!vc_freed(l), "the state outlives the operation that completes it"); }
static void begin_when(int64_t n) {
	n_acq = 0; awaited = false; acoro = nullptr; mine = n; n_woken = 0; vc::nev = 0; vc::n_added = vc::n_final = 0; vc::on_added = vc::on_final = nullptr;
	sch = vc::any_scheduler("sch"); asch = vc_choose("same scheduler") ? sch : vc::any_scheduler("asch");
	int64_t c = (int64_t)vc::count("operations"); st = new W(c); vc_assert(st->_counter.load() == c && !st->_coro && st->_scheduler == nullptr && st->_count.load() == 0, "a new state waits for its operations");
	last_ = c; vc_assume(c >= n);
	st->lock();                                   // the awaiting side
	any_counter(); n_acq = 0;
	vc_guard(&st->_coro, sizeof(st->_coro), &st->_lock);
	vc::on_acquire = when_acquire; vc::on_release = when_release;
}
static void (*in_place)() = nullptr; static bool resumed_elsewhere;
// the awaiting task may go on at once on its own thread: it takes the result and lets the state go
static void goes_on_GHOST(scheduler_t* s, state_base_t* b) {
	vc_assert(s == asch && b == (state_base_t*)st, "the awaiting task is scheduled, on its own scheduler"); vc_assert(awaited, "only a task that waits is scheduled");
	++n_woken; vc_assert(left_ == 1 && n_woken == 1, "the awaiting task is scheduled once, when the last operation has completed");
	if (in_place) in_place();
	if (vc_choose("goes on at once")) { resumed_elsewhere = true; st->_coro = nullptr; vc_unguard(); st->unlock(); }
}
VC_HARNESS(notify) {
	begin_when(1); st->lock(); resumed_elsewhere = false; vc::on_added = goes_on_GHOST; W* s = st;
	bool r = s->on_notify_one(); vc_unguard();
	vc_assert(n_acq == 1, "one critical section"); vc_assert(r == (left_ == 1), "only the last operation completes it"); vc_assert(!vc_freed(s) && s->_counter.load() == left_ - 1, "each operation counts once");
	vc_assert(vc::n_added == (left_ == 1 && awaited ? 1u : 0u), "the awaiting task is scheduled exactly when the last operation completes");
	vc_assert(vc_nheld() == 0, "no lock is kept");
	if (!resumed_elsewhere) { vc_assert(s->_coro.address() == acoro && s->_scheduler == (awaited ? asch : nullptr), "who waits is kept"); vc_cover("kept"); }
	if (left_ == 1) { if (awaited) vc_cover("woken"); else vc_cover("not awaited yet"); } else vc_cover("not last");
}
static void at_resume(void* f) { vc_assert(f == acoro && vc::n_final == 1, "the awaiting task is taken off the scheduler, then resumed"); vc_unguard(); vc_assert(!st->_coro, "a waiting task is resumed once"); st->unlock(); }
VC_HARNESS(resume_when) {
	begin_when(0); vc_unguard(); vc::resumes = 0; W* s = st; s->_counter.store(0);
	if (awaited) vc::resume_hook = at_resume;
	vc_assert(s->has_handler() == awaited, "a state has something to run while a task waits");
	s->resume(); vc::resume_hook = nullptr;
	vc_assert(vc::resumes == (awaited ? 1 : 0) && vc::n_final == (awaited ? 1u : 0u), "a waiting task is resumed once");
	if (awaited) { vc_assert(vc::evs[0].sch == asch && vc::evs[0].st == (state_base_t*)s, "taken off its own scheduler"); vc_cover("resumed"); } else { s->resume(); vc_assert(vc::resumes == 0, "nobody waits"); vc_cover("nobody"); }
}
// ------------------------------------------------------------------ waiting
template<class V> static void wait_() {
	uint64_t mark = vc_mark();
	auto* f = new detail::when_future_t<V>((intptr_t)0); st = f->_state.get(); vc_assert(st->_count.load() == 1 && f->_values.get() != nullptr, "a new result holds its state");
	n_acq = 0; awaited = true; acoro = nullptr; mine = 0; vc::nev = 0; vc::n_added = 0; asch = vc::any_scheduler("asch");
	left_ = (int64_t)vc::count("outstanding"); last_ = left_; st->_counter.store(left_);
	vc_guard(&st->_coro, sizeof(st->_coro), &st->_lock); vc::on_acquire = when_acquire; vc::on_release = when_release;
	bool ready = f->await_ready(); vc_assert(ready == (left_ == 0), "a result is ready when every operation has completed");
	// a task of scheduler asch, called directly or through a chain of callers
	auto* tf = vc::task_frame<promise_t<int>>(asch); SF* ps = tf->promise.get_state(); SF* root = nullptr;
	if (vc_choose("called by another task")) { ps->_scheduler = nullptr; root = SF::_Alloc_state<state_t<int>>(false); root->_scheduler = asch; ps->_parent = root; root->lock(); }
	if (!ready) {
		bool s = true; auto h = vc::handle(tf);
		if constexpr (std::is_void_v<decltype(f->await_suspend(h))>) f->await_suspend(h); else s = f->await_suspend(h);
		vc_unguard(); vc_assert(n_acq <= 1 && vc_nheld() == 0, "one critical section");
		vc_assert(s == (left_ != 0), "a task waits exactly while an operation is outstanding");
		if (s) { vc_assert(st->_coro.address() == (void*)tf && st->_scheduler == asch, "the waiting task is registered with its scheduler"); vc_cover("waits"); }
		else { vc_assert(!st->_coro, "a task that does not wait is not registered"); vc_cover("completed meanwhile"); }
		vc_assert(st->_counter.load() == left_ && vc::n_added == 0, "waiting wakes nobody");
	} else { vc_unguard(); vc_cover("ready"); }
	vc::on_acquire = vc::on_release = nullptr; st->_coro = nullptr;
	tf->promise.~promise_t<int>(); if (root) root->unlock();
	delete f; vc_assert(vc_leaks(mark) == 0, "a result releases its state and its values");
}
VC_HARNESS(wait_vector) { wait_<std::vector<uint64_t>>(); }
VC_HARNESS(wait_tuple) { wait_<std::tuple<uint64_t, detail::ignore_type>>(); }
VC_HARNESS(wait_any) { wait_<when_any_pair>(); }
VC_HARNESS(result_all) {
	detail::when_future_t<std::tuple<uint64_t, uint64_t>> f(0); uint64_t a = vc::u64("a"), b = vc::u64("b"); std::get<0>(*f._values) = a; std::get<1>(*f._values) = b;
	auto r = f.await_resume(); vc_assert(std::get<0>(r) == a && std::get<1>(r) == b, "the results are returned in place"); vc_cover("tuple");
}
VC_HARNESS(result_any) {
	detail::when_future_t<when_any_pair> f(0); uint64_t a = vc::u64("a"); int64_t i = (int64_t)vc::u64("i"); f._values->first = i; f._values->second = a;
	auto r = f.await_resume(); vc_assert(r.first == i && any_cast<uint64_t>(r.second) == a, "the index and the result are returned"); vc_cover("pair");
}
// ------------------------------------------------------------------ an operation of unknown behaviour
static coroutine_handle<> waiter_[4]; static bool done_[4]; static uint64_t val_[4]; static int n_taken[4];
template<class T> struct alignas(16) op {
	uint64_t id;
	bool await_ready() { return done_GHOST(); }
	bool done_GHOST() { return done_[id]; }
	template<class P> void await_suspend(coroutine_handle<P> h) { set_GHOST(h); }
	void set_GHOST(coroutine_handle<> h) { vc_assert(!waiter_[id], "an operation is awaited once"); waiter_[id] = h; }
	T await_resume() { taken_GHOST(); if constexpr (std::is_same_v<T, uint64_t&>) return val_[id]; else if constexpr (std::is_same_v<T, bool>) return val_[id] != 0; else if constexpr (!std::is_void_v<T>) return (T)val_[id]; }
	void taken_GHOST() { vc_assert(done_[id], "an operation gives its result when it has completed"); ++n_taken[id]; }
};
template<class T> struct callable { uint64_t id; op<T> operator()() const { return op<T>{ id }; } };
template<class T> static future_t<T> nested_body(uint64_t id) { if constexpr (std::is_void_v<T>) co_await op<T>{ id }; else co_return co_await op<T>{ id }; }
template<class T> struct nested { uint64_t id; future_t<T> operator()() const { return nested_body<T>(id); } };
static void reset_ops() { for (int i = 0; i < 4; ++i) { waiter_[i] = nullptr; done_[i] = false; n_taken[i] = 0; val_[i] = vc::u64("result"); } }
static void complete_GHOST(int i) { vc_assert(!done_[i], "harness"); done_[i] = true; if (waiter_[i]) waiter_[i].resume(); }
// ------------------------------------------------------------------ first-in first-out scheduler
static counted_ptr<state_base_t> rq[32]; static int rq_h, rq_t; static task_t* registry[8]; static int n_reg, n_retired;
static bool is_when(state_base_t* b);
static void q_add_GHOST(scheduler_t* s, state_base_t* b) { vc_assert(s == sch, "a task stays on its scheduler"); vc_assert(rq_t < 32, "bounded"); rq[rq_t++] = b; }
static void q_final_GHOST(scheduler_t* s, state_base_t* b) { vc_assert(s == sch, "a task stays on its scheduler"); for (auto& r : registry) if (r && r->_state.get() == b) { task_t* t = r; r = nullptr; ++n_retired; delete t; } }
static void run_GHOST() { while (rq_h < rq_t) { counted_ptr<state_base_t> s(std::move(rq[rq_h++])); s->resume(); } }
static task_t* (*on_task)(scheduler_t*, task_t*) = nullptr;
static task_t* q_task_GHOST(scheduler_t* s, task_t* t) {
	vc_assert(s == sch && n_reg < 8, "bounded"); registry[n_reg++] = t; t->_state->set_scheduler(s);
	if (t->_state->has_handler()) q_add_GHOST(s, t->_state.get());
	return t;
}
static task_t* new_task(scheduler_t* s, task_t* t) { vc_assert(s != nullptr && t != nullptr, "an operation is started on a live scheduler"); return on_task ? on_task(s, t) : t; }
VC_CONTRACT("librf::scheduler_t::new_task\\(librf::task_t\\*\\)", new_task, "C10")
static void fifo() { rq_h = rq_t = n_reg = n_retired = 0; on_task = q_task_GHOST; for (auto& r : registry) r = nullptr; }
template<class F> static void start_GHOST(F&& f) { *sch + std::move(f); }
// ------------------------------------------------------------------ C17: one operation of when_all
static uint64_t expected; static const void* slot; static int slot_kind; static uint64_t bit; static int n_count; static bool finished_op;
static bool slot_ok_GHOST() {
	if (slot_kind == 0) return *(const uint64_t*)slot == expected;
	if (slot_kind == 1) return ((*(const uint64_t*)slot >> bit) & 1) == (expected != 0);
	return true;
}
static void slot_in_place() { vc_unguard(); vc_assert(done_[0] && slot_ok_GHOST(), "the result of an operation is in place before the task that waits for all goes on"); if (slot_kind == 0 && vc_choose("result taken at once")) vc_kill((void*)slot); }
static void count_hook(void* p, int kind, int order) {
	if (p != (void*)&st->_counter || kind == 0) return;
	++n_count; vc_assert(done_[0], "an operation counts when it has completed, not before");
	vc_assert(vc_freed(slot) || slot_ok_GHOST(), "the result of an operation is in place before it counts");
}
static void wheld_GHOST(scheduler_t* s, state_base_t* b) { if (b == (state_base_t*)st) goes_on_GHOST(s, b); else q_add_GHOST(s, b); }
template<class MK> static void connector(MK mk) {
	reset_ops(); begin_when(1); fifo(); vc::on_added = wheld_GHOST; vc::on_final = q_final_GHOST; in_place = slot_in_place; resumed_elsewhere = false; n_count = 0;
	expected = val_[0]; W* s = st; bool early = vc_choose("completed before it is awaited"); if (early) done_[0] = true;
	uint64_t mark = vc_mark(); // nothing of the connector is left
	vc_atomhook(count_hook);
	*sch + mk(s);
	vc_assert(n_taken[0] == 0 && n_count == 0, "an operation is awaited by its own task");
	run_GHOST();
	if (!early) { vc_assert(n_taken[0] == 0 && n_count == 0 && n_retired == 0 && !vc_freed(s), "an operation counts when it has completed, not before"); vc_assert((bool)waiter_[0], "the operation is awaited"); complete_GHOST(0); run_GHOST(); }
	vc_atomhook(nullptr); vc_unguard();
	vc_assert(n_taken[0] == 1 && n_count == 1, "each operation counts once");
	vc_assert(n_retired == 1, "the task of a completed operation ends");
	if (resumed_elsewhere) { vc_assert(vc_freed(s), "the state is let go"); vc_cover("went on at once"); }
	else { vc_assert(!vc_freed(s) && s->_count.load() == 1 && s->_counter.load() == left_ - 1, "each operation counts once and lets the state go"); if (!vc_freed(slot)) vc_assert(slot_ok_GHOST(), "the result stays in place"); }
	vc_assert(n_woken == (left_ == 1 && awaited ? 1 : 0), "the awaiting task is scheduled exactly when the last operation completes"); vc_assert(vc_nheld() == 0, "no lock is kept"); vc_assert(vc_leaks(mark) == 0, "a completed operation leaves nothing behind");
	if (early) vc_cover("completed first"); else vc_cover("completed later");
}
template<class TASK> static void connector_1() {
	uint64_t* cell = vc::raw<uint64_t>("slot"); slot = cell; slot_kind = 0;
	connector([&](W* s) { return detail::when_all_connector_1<TASK, uint64_t>(s, TASK{ 0 }, *cell); });
}
template<class TASK> static void connector_1v() { static detail::ignore_type ig; slot = &ig; slot_kind = 2; connector([&](W* s) { return detail::when_all_connector_1<TASK, detail::ignore_type>(s, TASK{ 0 }, ig); }); }
template<class TASK> static void connector_2() {
	uint64_t* cell = vc::raw<uint64_t>("slot"); slot = cell; slot_kind = 0;
	connector([&](W* s) { return detail::when_all_connector_2<TASK, uint64_t>(s, TASK{ 0 }, *cell); });
}
template<class TASK> static void connector_2v() { static detail::ignore_type ig; slot = &ig; slot_kind = 2; connector([&](W* s) { return detail::when_all_connector_2<TASK, detail::ignore_type>(s, TASK{ 0 }, ig); }); }
VC_HARNESS(all_op_tuple) { connector_1<op<uint64_t>>(); }
VC_HARNESS(all_op_tuple_ref) { connector_1<op<uint64_t&>>(); }
VC_HARNESS(all_op_tuple_call) { connector_1<callable<uint64_t>>(); }
VC_HARNESS(all_op_tuple_nested) { connector_1<nested<uint64_t>>(); }
VC_HARNESS(all_op_tuple_void) { connector_1v<op<void>>(); }
VC_HARNESS(all_op_tuple_void_nested) { connector_1v<nested<void>>(); }
VC_HARNESS(all_op_range) { connector_2<op<uint64_t>>(); }
VC_HARNESS(all_op_range_ref) { connector_2<op<uint64_t&>>(); }
VC_HARNESS(all_op_range_call) { connector_2<callable<uint64_t>>(); }
VC_HARNESS(all_op_range_nested) { connector_2<nested<uint64_t>>(); }
VC_HARNESS(all_op_range_void) { connector_2v<op<void>>(); }
VC_HARNESS(all_op_range_void_nested) { connector_2v<nested<void>>(); }
// one bit of a vector<bool>: the other bits belong to other operations, which may write them on other threads
static uint64_t* word;
static void bool_acquire(void* l) { when_acquire(l); if (st && l == &st->_lock) { uint64_t w = vc::u64("word"), m = 1ull << bit; *word = (w & ~m) | (*word & m); } }
template<class TASK> static void connector_bool() {
	word = vc::raw<uint64_t>("word"); *word = vc::u64("word"); slot = word; slot_kind = 1; bit = vc::u32("bit"); vc_assume(bit < 64);
	connector([&](W* s) { vc::on_acquire = bool_acquire; vc_guard(word, 8, &s->_lock); return detail::when_all_connector_2<TASK, bool>(s, TASK{ 0 }, std::_Bit_reference((unsigned long*)word, 1ull << bit)); });
}
VC_HARNESS(all_op_bool) { connector_bool<op<bool>>(); }
VC_HARNESS(all_op_bool_nested) { connector_bool<nested<bool>>(); }
// ------------------------------------------------------------------ C18: one operation of when_any
static when_any_pair_ptr* pr; static int64_t idx_, other_idx; static bool won;
// another operation may complete first, at any moment before this one has taken the result
static void other_wins() { (*pr)->first = other_idx; (*pr)->second = (uint64_t)val_[3]; other_first = true; }
static void first_hook(void* p, int kind, int order) {
	if (p == (void*)&st->_counter) { if (kind) { ++n_count; vc_assert(won, "only the first operation completes it"); vc_assert((*pr)->first == idx_, "the index is in place before the awaiting task goes on"); } return; }
	if (!*pr || p != (void*)&(*pr)->first) return;
	if (kind == 0) { if (!other_first && !won && vc_choose("another one completes first")) other_wins(); return; }
	vc_assert(kind >= 2, "the first operation is decided by one atomic step"); vc_assert(done_[0], "an operation takes part when it has completed");
	if (kind == 4) return;
	vc_assert(!other_first, "the first operation stays the first"); won = true;
	vc_assert((*pr)->first == idx_, "the index of the first operation");
}
static bool void_result;
static void pair_in_place() {
	vc_assert(won, "only the first operation completes it");
	when_any_pair p = std::move(**pr); vc_assert(p.first == idx_, "the index of the first operation is returned");
	if (void_result) vc_assert(!p.second.has_value(), "no result"); else { auto* v = any_cast<uint64_t>(&p.second); vc_assert(v && *v == val_[0], "the result of the first operation is returned"); }
	pr->reset();
}
template<class TASK> static void any_connector(bool v) {
	void_result = v; any_mode = true; other_first = false; reset_ops(); uint64_t mark = vc_mark(); begin_when(1); 
	fifo(); vc::on_added = wheld_GHOST; vc::on_final = q_final_GHOST; in_place = pair_in_place; resumed_elsewhere = false; n_count = 0; won = other_first = false;
	idx_ = (int64_t)vc::count("idx"); other_idx = (int64_t)vc::count("other"); vc_assume(idx_ != other_idx);
	when_any_pair_ptr keep; { auto q = std::make_shared<when_any_pair>(); q->first = -1; keep = q; } pr = &keep; 
	W* s = st; bool early = vc_choose("completed before it is awaited"); if (early) done_[0] = true;
	*sch + detail::when_any_connector<TASK>(s, TASK{ 0 }, keep, (intptr_t)idx_);
	vc_assert(n_taken[0] == 0 && n_count == 0, "an operation is awaited by its own task");
	if (vc_choose("another one completed long ago")) other_wins();
	vc_atomhook(first_hook);
	run_GHOST();
	if (!early) { vc_assert(n_taken[0] == 0 && n_count == 0 && n_retired == 0 && !vc_freed(s) && !won, "an operation takes part when it has completed"); vc_assert((bool)waiter_[0], "the operation is awaited"); if (!other_first && vc_choose("another one completes meanwhile")) other_wins(); complete_GHOST(0); run_GHOST(); }
	vc_atomhook(nullptr); vc_unguard();
	vc_assert(n_taken[0] == 1 && n_retired == 1, "the task of a completed operation ends"); vc_assert(won == !other_first, "the first operation to complete decides");
	if (won) { vc_assert(n_count == 1 && n_woken == (awaited ? 1 : 0), "the first operation completes it, once");
		vc_cover("first"); if (resumed_elsewhere) { vc_cover("went on at once"); }
		else { vc_assert(s->_counter.load() == 0, "completed"); if (!n_woken) pair_in_place(); } }
	else { vc_cover("not first"); vc_assert(n_count == 0 && n_woken == 0, "a later operation wakes nobody"); auto* x = any_cast<uint64_t>(&keep->second); vc_assert(keep->first == other_idx && x && *x == val_[3], "a later operation does not change the result"); }
	if (!resumed_elsewhere) { vc_assert(!vc_freed(s) && s->_count.load() == 1, "an operation lets the state go"); vc::on_release = nullptr; s->unlock(); }
	keep.reset(); vc_assert(vc_nheld() == 0, "no lock is kept");
	vc_assert(vc_leaks(mark) == 0, "a completed operation leaves nothing behind");
}
VC_HARNESS(any_op) { any_connector<op<uint64_t>>(false); }
VC_HARNESS(any_op_call) { any_connector<callable<uint64_t>>(false); }
VC_HARNESS(any_op_nested) { any_connector<nested<uint64_t>>(false); }
VC_HARNESS(any_op_void) { any_connector<op<void>>(true); }
VC_HARNESS(any_op_void_nested) { any_connector<nested<void>>(true); }
// ------------------------------------------------------------------ any number of operations (loop contracts; connectors are their contract, proved above)
struct alignas(16) rop { uint64_t id; bool await_ready() { return true; } template<class P> void await_suspend(coroutine_handle<P>) {} uint64_t await_resume() { return id; } };
struct alignas(16) rbop { uint64_t id; bool await_ready() { return true; } template<class P> void await_suspend(coroutine_handle<P>) {} bool await_resume() { return true; } };
struct alignas(16) rvop { uint64_t id; bool await_ready() { return true; } template<class P> void await_suspend(coroutine_handle<P>) {} void await_resume() {} };
static uint64_t N, n_made, n_started; static uint32_t bit_off;   // bit_off: n_made % 64, for a loop that walks the bits of a vector<bool> with an iterator
 static W* rst; static bool whole_; static void* vals; static SF* made; static int64_t rcount; static const void* rpair; static bool r_any;
static future_t<> made_GHOST(W* s, uint64_t id) {
	vc_assert(s != nullptr && s == rst, "every operation counts for the result that is made");
	if (n_made == 0) { vc_assert(s->_counter.load() == rcount, "only operations count"); vc_assert(r_any ? rcount == 1 : (uint64_t)rcount == N, "a result waits for all of its operations before the first one starts (any: for one)"); }
	vc_assert(id == n_made && n_made == n_started, "each operation is started once"); ++n_made; bit_off = (uint32_t)(n_made & 63);
	future_t<> f(SF::_Alloc_state<state_t<void>>(false)); made = f._state.get(); return f;
}
static future_t<> con_val(counted_ptr<W> s, rop task, uint64_t& value) { vc_assert(&value == (uint64_t*)vals + n_made, "operation i fills position i"); return made_GHOST(s.get(), task.id); }
static future_t<> con_bool(counted_ptr<W> s, rbop task, std::_Bit_reference value) { vc_assert(value._M_p == (unsigned long*)vals + (n_made >> 6) && value._M_mask == 1ull << (n_made & 63), "operation i fills position i"); return made_GHOST(s.get(), task.id); }
static future_t<> con_void(counted_ptr<W> s, rvop task, detail::ignore_type& value) { return made_GHOST(s.get(), task.id); }
static future_t<> con_any(counted_ptr<W> s, rop task, when_any_pair_ptr value, intptr_t idx) {
	vc_assert((uint64_t)idx == n_made, "operation i reports index i"); if (n_made == 0) vc_assert(value->first == -1 && !value->second.has_value(), "no operation has completed at the start");
	vc_assert(value.get() != nullptr && (rpair == nullptr || value.get() == rpair), "every operation reports to the same result"); return made_GHOST(s.get(), task.id);
}
VC_CONTRACT("librf::future_t<void> librf::detail::when_all_connector_2<rop, unsigned long>\\(librf::counted_ptr<librf::detail::state_when_t>, rop, .*\\)", con_val, "C17 all_op_range")
VC_CONTRACT("librf::future_t<void> librf::detail::when_all_connector_2<rbop, bool>\\(librf::counted_ptr<librf::detail::state_when_t>, rbop, .*\\)", con_bool, "C17 all_op_bool")
VC_CONTRACT("librf::future_t<void> librf::detail::when_all_connector_2<rvop, .*>\\(librf::counted_ptr<librf::detail::state_when_t>, rvop, .*\\)", con_void, "C17 all_op_range_void")
VC_CONTRACT("librf::future_t<void> librf::detail::when_any_connector<rop>\\(librf::counted_ptr<librf::detail::state_when_t>, rop, .*\\)", con_any, "C18 any_op")
static task_t* started_GHOST(scheduler_t* s, task_t* t) {
	vc_assert(s == sch, "operations run on the scheduler given"); vc_assert(made != nullptr && t->_state.get() == made, "each operation is started once"); made = nullptr; ++n_started;
	// operations that were started may complete at any moment
	int64_t c = (int64_t)vc::count("outstanding"); vc_assume(c <= rcount && (r_any || c >= (int64_t)(N - n_started))); rcount = c; rst->_counter.store(c);
	delete t; return t;
}
static void* mk_rop(uint64_t i, void*) { auto* r = vc::raw<rop>("operation"); r->id = i; return r; }
static void* mk_u64(uint64_t i, void*) { auto* r = vc::raw<uint64_t>("result"); *r = 0; return r; }
static void* mk_ign(uint64_t i, void*) { return vc::raw<char>("result"); }
static void resize_val_GHOST(std::vector<uint64_t>* v, uint64_t n) { if (whole_) { v->resize(n); return; } vc_assert(n == N, "one position for each operation"); vals = vc_lazy_array(n, 8, mk_u64, nullptr, "results"); v->_M_impl._M_start = (uint64_t*)vals; v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = (uint64_t*)vals + n; }
static void resize_bool_GHOST(std::vector<bool>* v, uint64_t n, bool) { if (whole_) { v->resize(n); return; } vc_assert(n == N, "one position for each operation"); uint64_t m = (n + 63) >> 6; vals = vc_lazy_array(m, 8, mk_u64, nullptr, "results"); v->_M_impl._M_start = std::_Bit_iterator((unsigned long*)vals, 0); v->_M_impl._M_finish = v->_M_impl._M_start; v->_M_impl._M_finish._M_p += n >> 6; v->_M_impl._M_finish._M_offset = n & 63; v->_M_impl._M_end_of_storage = (unsigned long*)vals + m; }
using IGV = std::vector<detail::ignore_type>;
static void resize_void_GHOST(IGV* v, uint64_t n) { if (whole_) { v->resize(n); return; } vc_assert(n == N, "one position for each operation"); vals = vc_lazy_array(n, 1, mk_ign, nullptr, "results"); v->_M_impl._M_start = (detail::ignore_type*)vals; v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = (detail::ignore_type*)vals + n; }
VC_CONTRACT("std::vector<unsigned long, std::allocator<unsigned long>>::resize\\(unsigned long\\)", resize_val_GHOST, "trusted")
VC_CONTRACT("std::vector<bool, std::allocator<bool>>::resize\\(unsigned long, bool\\)", resize_bool_GHOST, "trusted")
VC_CONTRACT("std::vector<std::_Swallow_assign, std::allocator<std::_Swallow_assign>>::resize\\(unsigned long\\)", resize_void_GHOST, "trusted")
static void new_when_GHOST(W* s, intptr_t n) { ::new ((void*)s) W(n); rst = s; rcount = n; }
static void new_pair_GHOST(when_any_pair* p) { ::new ((void*)p) when_any_pair(); rpair = p; }
VC_CONTRACT("librf::detail::state_when_t::state_when_t\\(long\\)", new_when_GHOST, "itself")
VC_CONTRACT("std::pair<long, std::any>::pair<.*>\\(\\)", new_pair_GHOST, "itself")
static void range_check() { vc_assert(n_started == vc_k() && n_made == vc_k() && vc_k() <= N, "one operation after the other"); }
// such a loop: the word of position k
static void* bit_word() { return (uint64_t*)vals + (vc_k() >> 6); }
static void bit_word_chk(void* p) { vc_assert(p == bit_word(), "loop: the word of the next result"); }
static void range_havoc() { bit_off = (uint32_t)(vc_k() & 63); n_started = n_made = vc_k(); vc_assume(n_started <= N); rcount = (int64_t)vc::count("outstanding"); vc_assume(rcount <= (r_any ? 1 : (int64_t)N) && (n_started == 0 ? rcount == (r_any ? (N ? 1 : 0) : (int64_t)N) : r_any || rcount >= (int64_t)(N - n_started))); rst->_counter.store(rcount); }
template<class R> static R* any_ops(uint64_t n) { return (R*)vc_lazy_array(n, 16, mk_rop, nullptr, "operations"); }
static void begin_range(bool any) { r_any = any; sch = vc::any_scheduler("sch"); N = vc::count("operations"); n_made = n_started = 0; rst = nullptr; vals = nullptr; made = nullptr; rpair = nullptr; on_task = started_GHOST; }
static void ignore_dtor(void*) {}
template<class V> static void end_range(detail::when_future_t<V>& f) {
	vc_assert(n_made == N && n_started == N, "each operation is started once"); vc_assert(N == 0 || f._state.get() == rst, "every operation counts for the result that is returned");
	vc_assert(f.await_ready() == (N == 0 || rcount == 0), "with no operation it completes at once"); if (N) vc_assert(f._state->_counter.load() == rcount, "only operations count");
	vc_assert(f._state->_count.load() == 1, "a result holds its state");
	if (vc_split(N == 0)) vc_cover("none"); else vc_cover("some");
}
template<class R, class V> static void all_range(int how, uint64_t es) {
	begin_range(false); R* a = any_ops<R>(N); uint64_t n = N;
	std::vector<R> c; c._M_impl._M_start = a; c._M_impl._M_finish = c._M_impl._M_end_of_storage = a + n;
	// the state of an arbitrary iteration is the one of the result that is being made
	bit_off = 0;
	vc_loop_contract(range_check, range_havoc, "starting the operations");
	if constexpr (std::is_same_v<V, std::vector<bool>>) { vc_loop_ptr(bit_word, bit_word_chk); vc_loop_eq(&bit_off, 4); }
	auto g = [&](detail::when_future_t<V>&& f) {
		vc_loop_contract(nullptr, nullptr, nullptr);
		end_range(f);
		if constexpr (std::is_same_v<V, std::vector<bool>>) vc_assert((void*)f._values->_M_impl._M_start._M_p == vals, "the results are returned"); else vc_assert((void*)f._values->_M_impl._M_start == vals && f._values->size() == n, "the results are returned");
		::new ((void*)&*f._values) V();
	};
	if (how == 0) g(when_all(*sch, a, a + n)); else if (how == 1) g(when_all(*sch, c.begin(), c.end())); else g(when_all(*sch, c));
	::new ((void*)&c) std::vector<R>();
}
VC_HARNESS(all_range_pointer) { all_range<rop, std::vector<uint64_t>>(0, 8); }
VC_HARNESS(all_range_iterator) { all_range<rop, std::vector<uint64_t>>(1, 8); }
VC_HARNESS(all_range_container) { all_range<rop, std::vector<uint64_t>>(2, 8); }
VC_HARNESS(all_range_bool) { all_range<rbop, std::vector<bool>>(0, 8); }
VC_HARNESS(all_range_void) { all_range<rvop, IGV>(0, 1); }
static void any_range(int how) {
	begin_range(true); rop* a = any_ops<rop>(N); uint64_t n = N;
	std::vector<rop> c; c._M_impl._M_start = a; c._M_impl._M_finish = c._M_impl._M_end_of_storage = a + n;
	vc_loop_contract(range_check, range_havoc, "starting the operations");
	auto g = [&](detail::when_future_t<when_any_pair>&& f) { vc_loop_contract(nullptr, nullptr, nullptr); end_range(f); vc_assert(N ? rpair == nullptr || f._values.get() == rpair : f._values->first == -1 && !f._values->second.has_value(), "the result is returned; with no operation it is an invalid index"); };
	if (how == 0) g(when_any(*sch, a, a + n)); else if (how == 1) g(when_any(*sch, c.begin(), c.end())); else g(when_any(*sch, c));
	::new ((void*)&c) std::vector<rop>();
}
VC_HARNESS(any_range_pointer) { any_range(0); }
VC_HARNESS(any_range_iterator) { any_range(1); }
VC_HARNESS(any_range_container) { any_range(2); }
// ------------------------------------------------------------------ whole tasks: compiled bodies, fixed numbers of operations, every completion order
static int n_tops, n_ended; static uint64_t got[4]; static int64_t got_idx; static bool got_any;
static void end_GHOST();
static future_t<> top_all(int kind) {
	switch (kind) {
	case 0: { auto [a, b, c] = co_await when_all(*sch, op<uint64_t>{ 0 }, nested<void>{ 1 }, callable<uint64_t&>{ 2 }); got[0] = a; got[1] = val_[1]; got[2] = c; break; }
	case 1: { auto [a, b] = co_await when_all(nested<uint64_t>{ 0 }, op<uint64_t>{ 1 }); got[0] = a; got[1] = b; break; }
	case 2: { auto f = when_all(*sch, op<uint64_t>{ 0 }, op<uint64_t>{ 1 }); co_await op<void>{ 3 }; auto [a, b] = co_await f; got[0] = a; got[1] = b; break; }
	case 3: { op<uint64_t> a[2] = { { 0 }, { 1 } }; auto v = co_await when_all(&a[0], &a[2]); vc_assert(v.size() == 2, "one result for each operation"); got[0] = v[0]; got[1] = v[1]; break; }
	case 4: { std::vector<callable<uint64_t>> a; a.push_back({ 0 }); a.push_back({ 1 }); auto v = co_await when_all(a); vc_assert(v.size() == 2, "one result for each operation"); got[0] = v[0]; got[1] = v[1]; break; }
	case 5: { auto v = co_await when_all(*sch); break; }
	case 6: { std::vector<op<uint64_t>> a; auto v = co_await when_all(*sch, a); vc_assert(v.size() == 0, "no result"); auto w = co_await when_all(a); vc_assert(w.size() == 0, "no result"); co_await when_all(); break; }
	case 7: { auto [a, b, c, d] = co_await when_all(*sch, op<uint64_t>{ 3 }, op<uint64_t>{ 2 }, op<uint64_t>{ 1 }, op<uint64_t>{ 0 }); got[0] = d; got[1] = c; got[2] = b; got[3] = a; break; }
	}
	end_GHOST();
}
static int need;
static void end_GHOST() { for (int i = 0; i < need; ++i) { vc_assert(done_[i] && n_taken[i] == 1, "it completes after each of its operations"); vc_assert(got[i] == val_[i], "the result of operation i is at position i"); } ++n_ended; }
static void whole_all(int kind, int n) {
	reset_ops(); whole_ = true; st = nullptr; sch = vc::any_scheduler("sch"); fifo(); vc::on_added = q_add_GHOST; vc::on_final = q_final_GHOST; vc::on_acquire = vc::on_release = nullptr; n_ended = 0; need = n;
	uint64_t mark = vc_mark();
	int early = 0; for (int i = 0; i < n; ++i) if (vc_choose("completed first")) { done_[i] = true; ++early; }
	*sch + top_all(kind);
	vc_assert(n_ended == 0, "a task does not run before its scheduler runs it"); run_GHOST();
	if (kind == 2 && !done_[3]) { vc_assert(n_ended == 0, "not awaited yet"); if (vc_choose("awaited after some have completed")) {} else { complete_GHOST(3); run_GHOST(); } }
	for (int k = early; k < n; ++k) {
		vc_assert(n_ended == 0, "it does not complete before each of its operations");
		int i = 0; while (i < n - 1 && (done_[i] || vc_choose("another one completes next"))) ++i; if (done_[i]) vc_end();
		complete_GHOST(i); if (vc_choose("run in between") || k == n - 1) run_GHOST();
	}
	if (kind == 2 && !done_[3]) { vc_assert(n_ended == 0, "not awaited yet"); complete_GHOST(3); run_GHOST(); }
	vc_assert(n_ended == 1, "it completes exactly once, when the last operation has completed"); vc_assert(n_retired == n_reg, "every task ends"); vc_assert(vc_leaks(mark) == 0, "nothing is left behind"); vc_cover("whole");
}
VC_HARNESS(whole_all_tuple) { whole_all(0, 3); }
VC_HARNESS(whole_all_current) { whole_all(1, 2); }
VC_HARNESS(whole_all_later) { whole_all(2, 2); }
VC_HARNESS(whole_all_pointers) { whole_all(3, 2); }
VC_HARNESS(whole_all_container) { whole_all(4, 2); }
VC_HARNESS(whole_all_nothing) { whole_all(5, 0); }
VC_HARNESS(whole_all_empty) { whole_all(6, 0); }
VC_HARNESS(whole_all_four) { whole_all(7, 4); }
// ------------------------------------------------------------------ C18
static bool got_void;
static void end_any_GHOST(const when_any_pair& p) {
	++n_ended; got_idx = p.first; got_any = p.second.has_value();
	if (need == 0) { vc_assert(p.first == -1 && !got_any, "with no operation the index is invalid"); return; }
	vc_assert(p.first >= 0 && p.first < need, "the index of an operation"); int i = (int)p.first;
	vc_assert(done_[i], "it completes with an operation that has completed");
	if (got_any) { auto* v = any_cast<uint64_t>(&p.second); vc_assert(v && *v == val_[i], "the result of that operation"); }
}
static future_t<> top_any(int kind) {
	switch (kind) {
	case 0: end_any_GHOST(co_await when_any(*sch, op<uint64_t>{ 0 }, nested<void>{ 1 }, callable<uint64_t>{ 2 })); break;
	case 1: end_any_GHOST(co_await when_any(nested<uint64_t>{ 0 }, op<uint64_t>{ 1 })); break;
	case 2: { auto f = when_any(*sch, op<uint64_t>{ 0 }, op<uint64_t>{ 1 }); co_await op<void>{ 3 }; end_any_GHOST(co_await f); break; }
	case 3: { op<uint64_t> a[2] = { { 0 }, { 1 } }; end_any_GHOST(co_await when_any(&a[0], &a[2])); break; }
	case 4: { std::vector<callable<uint64_t>> a; a.push_back({ 0 }); a.push_back({ 1 }); end_any_GHOST(co_await when_any(a)); break; }
	case 5: end_any_GHOST(co_await when_any(*sch)); break;
	case 6: { std::vector<op<uint64_t>> a; end_any_GHOST(co_await when_any(*sch, a)); break; }
	case 7: end_any_GHOST(co_await when_any()); break;
	case 8: { std::vector<op<uint64_t>> a; end_any_GHOST(co_await when_any(a)); break; }
	}
}
static void whole_any(int kind, int n) {
	reset_ops(); whole_ = true; st = nullptr; sch = vc::any_scheduler("sch"); fifo(); vc::on_added = q_add_GHOST; vc::on_final = q_final_GHOST; vc::on_acquire = vc::on_release = nullptr; n_ended = 0; need = n; got_idx = -2;
	uint64_t mark = vc_mark(); int first = -1; int early = 0; bool was[4] = {};
	for (int i = 0; i < n; ++i) if (vc_choose("completed first")) { done_[i] = true; ++early; was[i] = true; first = i; }
	*sch + top_any(kind); vc_assert(n_ended == 0, "a task does not run before its scheduler runs it"); run_GHOST();
	if (kind == 2) { vc_assert(n_ended == 0, "not awaited yet"); if (vc_choose("awaited before others complete")) { complete_GHOST(3); run_GHOST(); } }
	for (int k = early; k < n; ++k) {
		if (kind != 2 || done_[3]) vc_assert(n_ended == (first >= 0 ? 1 : 0), "it completes when the first operation has completed, not before");
		int i = 0; while (i < n - 1 && (done_[i] || vc_choose("another one completes next"))) ++i; if (done_[i]) vc_end();
		if (first < 0) first = i;
		complete_GHOST(i); run_GHOST();
	}
	if (kind == 2 && !done_[3]) { vc_assert(n_ended == 0, "not awaited yet"); complete_GHOST(3); run_GHOST(); }
	vc_assert(n_ended == 1, "it completes exactly once"); vc_assert(early ? got_idx >= 0 && was[got_idx] : got_idx == first, "the index of the first operation to complete");
	vc_assert(n == 0 || got_any == !(kind == 0 && got_idx == 1), "the result of the first operation to complete");
	vc_assert(n_retired == n_reg, "every task ends"); vc_assert(vc_leaks(mark) == 0, "nothing is left behind"); vc_cover("whole");
}
VC_HARNESS(whole_any_tuple) { whole_any(0, 3); }
VC_HARNESS(whole_any_current) { whole_any(1, 2); }
VC_HARNESS(whole_any_later) { whole_any(2, 2); }
VC_HARNESS(whole_any_pointers) { whole_any(3, 2); }
VC_HARNESS(whole_any_container) { whole_any(4, 2); }
VC_HARNESS(whole_any_nothing) { whole_any(5, 0); }
VC_HARNESS(whole_any_empty) { whole_any(6, 0); }
VC_HARNESS(whole_any_nothing_current) { whole_any(7, 0); }
VC_HARNESS(whole_any_empty_current) { whole_any(8, 0); }
