// C12 / C13: the state shared by promise, future, awaiter and scheduler (state_t<T>, state_t<T&>, state_t<void>), from every state.
#include "vc_sched.h"
using namespace librf;
static const char* err_str(error_code, const char*) { return "error"; }
VC_CONTRACT("librf::get_error_string\\(.*\\)", err_str, "trusted")
using SF = state_future_t; using RT = SF::result_type; using IT = SF::initor_type;
// ------------------------------------------------------------------ value types under ghost observation
static int64_t live; // objects of type tracked alive
struct tracked {
	uint64_t v; bool ok = true;
	explicit tracked(uint64_t x) : v(x) { ++live; }
	tracked(tracked&& r) : v(r.v) { vc_assert(r.ok, "only a live value is moved"); ++live; r.v = 0; }
	tracked& operator=(tracked&& r) { vc_assert(ok && r.ok, "only a live value is assigned"); v = r.v; r.v = 0; return *this; }
	tracked(const tracked&) = delete;
	~tracked() { vc_assert(ok, "a value is destroyed once"); ok = false; --live; }
};
struct boom { uint64_t v; };
template<class T> struct ops;
template<> struct ops<uint64_t> {
	static void put(state_t<uint64_t>* s, uint64_t v) { s->set_value(v); }
	static void fill(state_t<uint64_t>* s, uint64_t v) { ::new ((void*)&s->_value) uint64_t(v); s->_has_value.store(RT::Value); }
	static uint64_t peek(state_t<uint64_t>* s) { return s->_value; }
	static bool take(state_t<uint64_t>* s, uint64_t v) { return s->future_await_resume() == v; }
	static void yield(promise_t<uint64_t>& p, uint64_t v) { p.yield_value(v); }
	static void ret(promise_t<uint64_t>& p, uint64_t v) { p.return_value(v); }
	static void aput(awaitable_t<uint64_t>& a, uint64_t v) { a.set_value(v); }
	static bool ftake(future_t<uint64_t>& f, uint64_t v) { return f.await_resume() == v; }
};
template<> struct ops<tracked> {
	static void put(state_t<tracked>* s, uint64_t v) { s->set_value(tracked(v)); }
	static void fill(state_t<tracked>* s, uint64_t v) { ::new ((void*)&s->_value) tracked(v); s->_has_value.store(RT::Value); }
	static uint64_t peek(state_t<tracked>* s) { return s->_value.ok ? s->_value.v : ~0ull; }
	static bool take(state_t<tracked>* s, uint64_t v) { tracked t = s->future_await_resume(); return t.v == v; }
	static void yield(promise_t<tracked>& p, uint64_t v) { p.yield_value(tracked(v)); }
	static void ret(promise_t<tracked>& p, uint64_t v) { p.return_value(tracked(v)); }
	static void aput(awaitable_t<tracked>& a, uint64_t v) { a.set_value(tracked(v)); }
	static bool ftake(future_t<tracked>& f, uint64_t v) { tracked t = f.await_resume(); return t.v == v; }
};
static uint64_t cells[1]; static uint64_t other_cell;
template<> struct ops<uint64_t&> {   // the reference itself is the value
	static void put(state_t<uint64_t&>* s, uint64_t) { s->set_value(cells[0]); }
	static void fill(state_t<uint64_t&>* s, uint64_t) { s->_value = &other_cell; s->_has_value.store(RT::Value); }
	static uint64_t peek(state_t<uint64_t&>* s) { return s->_value == &cells[0] ? cells[0] : ~0ull; }
	static bool take(state_t<uint64_t&>* s, uint64_t) { return &s->future_await_resume() == s->_value; }
	static void yield(promise_t<uint64_t&>& p, uint64_t) { p.yield_value(cells[0]); }
	static void ret(promise_t<uint64_t&>& p, uint64_t) { p.return_value(cells[0]); }
	static void aput(awaitable_t<uint64_t&>& a, uint64_t) { a.set_value(cells[0]); }
	static bool ftake(future_t<uint64_t&>& f, uint64_t) { return &f.await_resume() == &cells[0]; }
};
template<> struct ops<void> {
	static void put(state_t<void>* s, uint64_t) { s->set_value(); }
	static void fill(state_t<void>* s, uint64_t) { s->_has_value.store(RT::Value); }
	static uint64_t peek(state_t<void>*) { return cells[0]; }
	static bool take(state_t<void>* s, uint64_t) { s->future_await_resume(); return true; }
	static void yield(promise_t<void>& p, uint64_t) { p.yield_value(); }
	static void ret(promise_t<void>& p, uint64_t) { p.return_void(); }
	static void aput(awaitable_t<void>& a, uint64_t) { a.set_value(); }
	static bool ftake(future_t<void>& f, uint64_t) { f.await_resume(); return true; }
};
template<class T> static std::exception_ptr& exc(state_t<T>* s) { return s->_exception; }
static void put_exc(state_t<void>* s, uint64_t v) { s->_exception = std::make_exception_ptr(boom{ v }); s->_has_value.store(RT::Exception); }
template<class T> static void put_exc(state_t<T>* s, uint64_t v) { ::new ((void*)&s->_exception) std::exception_ptr(std::make_exception_ptr(boom{ v })); s->_has_value.store(RT::Exception); }
static bool is_boom(const std::exception_ptr& p, uint64_t v) {
	if (!p) return false;
	try { std::rethrow_exception(p); } catch (boom& b) { return b.v == v; }
	return false;
}
// ------------------------------------------------------------------ an arbitrary state of type T, held `holders` times
enum { OWN, INHERITED, NONE };
static uint64_t holders; static scheduler_t* sch; static int where; static uint64_t V, W;
static SF* parent; static void* cor; static void* ini; static SF* under;
static void held_GHOST(scheduler_t* s, state_base_t* st) {
	vc_assert(s == sch && st == (state_base_t*)under, "the state itself is scheduled, on the scheduler of its task");
	if (vc::nev < 32) { vc::evs[vc::nev].sch = s; vc::evs[vc::nev].st = st; vc::evs[vc::nev].op = 1; ++vc::nev; }
}
template<class T> static state_t<T>* any_state(bool awaitor, int has = -1) {
	state_t<T>* s = SF::_Alloc_state<state_t<T>>(awaitor);
	vc_assert(!s->_coro && s->_scheduler == nullptr && s->get_parent() == nullptr && s->_has_value.load() == RT::None && s->_is_initor == IT::None && s->_count.load() == 0, "a new state is empty");
	vc_assert(s->is_ready() == !awaitor && !s->future_await_ready() && !s->has_handler(), "a new state has no result");
	holders = vc::count("holders"); vc_assume(holders >= 1);
	s->_count.store((intptr_t)holders);
	V = vc::u64("old_value"); W = vc::u64("new_value"); cells[0] = W;
	if (has < 0) has = vc_choose("has value") ? 1 : vc_choose("has exception") ? 2 : 0;
	if (has == 1) ops<T>::fill(s, V);
	if (has == 2) put_exc(s, V);
	cor = vc_choose("awaited") ? vc::coro() : nullptr;
	if (cor) s->_coro = coroutine_handle<>::from_address(cor);
	where = vc_choose("own scheduler") ? OWN : vc_choose("inherited scheduler") ? INHERITED : NONE;
	sch = where == NONE ? nullptr : vc::any_scheduler("sch");
	parent = nullptr;
	if (where == OWN) s->_scheduler = sch;
	if (where == INHERITED) {
		// the scheduler is found at the root of the chain of awaiting tasks
		parent = SF::_Alloc_state<state_t<int>>(false); SF* root = SF::_Alloc_state<state_t<int>>(false);
		parent->_parent = root; root->_scheduler = sch; s->_parent = parent; parent->lock(); root->lock();
	}
	under = s; vc::nev = 0; vc::on_added = held_GHOST;
	vc_guard(&s->_coro, sizeof(s->_coro), &s->_mtx); vc_guard(&s->_is_initor, 1, &s->_mtx); vc_guard(&s->_initor, sizeof(s->_initor), &s->_mtx);
	return s;
}
template<class T> static void frame_kept(state_t<T>* s, void* c, SF* par, scheduler_t* own, IT it) {
	vc_unguard();
	vc_assert(s->_coro.address() == c, "who waits for the result");
	vc_assert(s->_parent == par && s->_scheduler == own, "the task of a state");
	vc_assert(s->_is_initor == it, "the start and end of the coroutine");
	vc_assert((uint64_t)s->_count.load() == holders, "holders balance");
	vc_assert(vc_nheld() == 0, "no lock is kept");
}
static void scheduled(int n, int retired) {
	int a = 0, d = 0;
	for (int i = 0; i < vc::nev; ++i) { vc_assert(vc::evs[i].st == (state_base_t*)under && vc::evs[i].sch == sch, "the state itself is scheduled, on the scheduler of its task"); if (vc::evs[i].op == 1) ++a; else ++d; }
	vc_assert(a == n, "the awaiting task is scheduled exactly once, and only when there is one");
	if (retired >= 0) vc_assert(d == retired, "retired from the scheduler");
}
template<class T> static void completed(int how) {
	// how: 0 set_value, 1 set_exception, 2 throw_exception
	auto* s = any_state<T>(vc_choose("hand made")); int64_t l0 = live;
	bool had = s->_has_value.load() == RT::Value;
	int w = vc_choose("initial") ? 1 : vc_choose("final") ? 2 : 0;
	vc_unguard(); if (w) { s->_initor = coroutine_handle<>::from_address(vc::coro()); s->_is_initor = w == 1 ? IT::Initial : IT::Final; }
	void* c = s->_coro.address(); SF* par = s->_parent; scheduler_t* own = s->_scheduler;
	vc_guard(&s->_coro, sizeof(s->_coro), &s->_mtx); vc_guard(&s->_is_initor, 1, &s->_mtx);
	if (how == 0) ops<T>::put(s, W);
	else if (how == 1) s->set_exception(std::make_exception_ptr(boom{ W }));
	else s->throw_exception(boom{ W });
	if (how == 0) {
		vc_assert(s->_has_value.load() == RT::Value && ops<T>::peek(s) == W, "a value that is set is the result");
		if (std::is_same_v<T, tracked>) vc_assert(live == l0 + (had ? 0 : 1), "the old result is replaced");
	} else {
		vc_assert(s->_has_value.load() == RT::Exception && is_boom(exc(s), W), "an exception that is set is the result");
		if (std::is_same_v<T, tracked>) vc_assert(live == l0 - (had ? 1 : 0), "the old result is replaced");
	}
	frame_kept(s, c, par, own, w == 0 ? IT::None : w == 1 ? IT::Initial : IT::Final);
	vc_assert(s->is_ready() && s->future_await_ready(), "a completed result is ready");
	if (sch == nullptr) { vc_cover("no scheduler yet"); scheduled(0, 0); }
	else if (c || w) { vc_cover("awaited"); scheduled(1, 0); }
	else { vc_cover("nobody waits yet"); scheduled(0, -1); }
}
#define VALS(name) VC_HARNESS(name##_value) { completed<uint64_t>(name); } VC_HARNESS(name##_object) { completed<tracked>(name); } VC_HARNESS(name##_ref) { completed<uint64_t&>(name); } VC_HARNESS(name##_void) { completed<void>(name); }
enum { set_value, set_exception, throw_exception };
VALS(set_value) VALS(set_exception) VALS(throw_exception)
// ------------------------------------------------------------------ awaiting
template<class T> static void await_() {
	bool awaitor = vc_choose("hand made");
	auto* s = any_state<T>(awaitor); vc_assume(s->_count.load() > 0);
	RT h = s->_has_value.load();
	future_t<T> f{ counted_ptr<state_t<T>>(s) };
	vc_unguard(); if (!awaitor) { s->_initor = coroutine_handle<>::from_address(vc::coro()); if (vc_choose("not started")) s->_is_initor = IT::Initial; }
	IT it = s->_is_initor;
	vc_guard(&s->_coro, sizeof(s->_coro), &s->_mtx);
	vc_assert(f.await_ready() == (h != RT::None), "awaiting a completed result does not suspend, awaiting another one does");
	vc_unguard();
	// the awaiting task: a coroutine whose state has a scheduler of its own or the one of its root
	scheduler_t* tsch = vc_choose("unscheduled task") ? nullptr : vc::any_scheduler("tsch");
	auto* tf = vc::task_frame<promise_t<int>>(nullptr); SF* ts = tf->promise.get_state();
	if (vc_choose("nested task")) { SF* root = SF::_Alloc_state<state_t<int>>(false); root->lock(); root->_scheduler = tsch; ts->_parent = root; } else ts->_scheduler = tsch;
	void* c = s->_coro.address(); sch = tsch; vc::nev = 0;
	f.await_suspend(vc::handle(tf));
	vc_assert(s->_coro.address() == (c ? c : (void*)tf), "the awaiting coroutine is remembered");
	vc_assert(s->_parent == ts && s->_scheduler == tsch, "the state belongs to the awaiting task");
	vc_assert(s->_has_value.load() == h && s->_is_initor == it, "awaiting changes no result");
	vc_assert((uint64_t)s->_count.load() == holders + 1, "holders balance");
	if (tsch && (!awaitor || h != RT::None)) { vc_cover("ready or startable"); scheduled(1, 0); }
	else { vc_cover("waits"); scheduled(0, 0); }
}
VC_HARNESS(await_value) { await_<uint64_t>(); }
VC_HARNESS(await_object) { await_<tracked>(); }
VC_HARNESS(await_ref) { await_<uint64_t&>(); }
VC_HARNESS(await_void) { await_<void>(); }
VC_HARNESS(await_self) {
	// a task that waits for its own state (yield): neither parent nor scheduler change
	auto* tf = vc::task_frame<promise_t<int>>(vc::any_scheduler("sch")); auto* s = tf->promise.get_state(); sch = s->_scheduler; under = s; vc::on_added = held_GHOST;
	s->future_await_suspend(vc::handle(tf));
	vc_assert(s->_parent == nullptr && s->_scheduler == sch && s->_coro.address() == (void*)tf, "the task of a state"); scheduled(1, 0);
	vc_cover("self");
}
template<class T> static void result() {
	auto* s = any_state<T>(vc_choose("hand made"));
	RT h = s->_has_value.load(); future_t<T> f{ counted_ptr<state_t<T>>(s) };
	int64_t l0 = live; uint64_t ret = ~0ull;
	void* c = cor; SF* par = s->_parent; scheduler_t* own = s->_scheduler;
	int got = 0;
	if (h == RT::Value) cells[0] = 0;
	try { bool same; if constexpr (std::is_same_v<T, uint64_t&>) same = &f.await_resume() == &other_cell; else same = ops<T>::ftake(f, V); vc_assert(same, "co_await returns the value the operation completed with"); got = 1; }
	catch (boom& b) { vc_assert(b.v == V, "co_await throws the exception the operation completed with"); got = 2; }
	catch (future_exception& e) { vc_assert(e._error == error_code::not_ready, "no result: not ready"); got = 3; }
	vc_assert(got == (h == RT::Value ? 1 : h == RT::Exception ? 2 : 3), "co_await returns the value or throws the exception");
	holders += 1; frame_kept(s, c, par, own, IT::None); vc_assert(vc::nev == 0, "taking a result schedules nobody");
	vc_assert(live == l0, "a value that is taken is moved out of the state, which keeps the empty object");
	if (got == 1) vc_cover("value"); else if (got == 2) vc_cover("exception"); else vc_cover("not ready");
}
VC_HARNESS(result_value) { result<uint64_t>(); }
VC_HARNESS(result_object) { result<tracked>(); }
VC_HARNESS(result_ref) { result<uint64_t&>(); }
VC_HARNESS(result_void) { result<void>(); }
// ------------------------------------------------------------------ the turn of a state: start, awaiter, end of the frame
VC_HARNESS(resume) {
	auto* s = any_state<uint64_t>(vc_choose("hand made"));
	int w = vc_choose("initial") ? 1 : vc_choose("final") ? 2 : 0;
	void* in = w ? vc::coro() : nullptr;
	vc_unguard(); if (w) { s->_initor = coroutine_handle<>::from_address(in); s->_is_initor = w == 1 ? IT::Initial : IT::Final; }
	void* c = cor; SF* par = s->_parent; scheduler_t* own = s->_scheduler; RT h = s->_has_value.load();
	vc_guard(&s->_coro, sizeof(s->_coro), &s->_mtx); vc_guard(&s->_is_initor, 1, &s->_mtx); vc_guard(&s->_initor, sizeof(s->_initor), &s->_mtx);
	vc::resumes = vc::destroys = 0;
	bool hh = s->has_handler();
	vc_assert(hh == (c || w), "a state with something to run says so");
	vc::resume_hook = [](void*) { vc_assert(vc_nheld() == 0, "a coroutine is resumed with no lock held"); };
	s->resume();
	if (w == 1) { vc_cover("start"); vc_assert(vc::resumes == 1 && vc::destroys == 0 && vc::last_resumed == in, "a coroutine is started once"); frame_kept(s, c, par, own, IT::None); }
	else if (c) { vc_cover("awaiter"); vc_assert(vc::resumes == 1 && vc::destroys == 0 && vc::last_resumed == c, "the awaiting task is resumed once"); frame_kept(s, nullptr, par, own, w == 2 ? IT::Final : IT::None); }
	else if (w == 2) { vc_cover("end"); vc_assert(vc::resumes == 0 && vc::destroys == 1 && vc::last_destroyed == in, "the frame of an ended coroutine is destroyed once"); frame_kept(s, nullptr, par, own, IT::None); }
	else { vc_cover("nothing"); vc_assert(vc::resumes == 0 && vc::destroys == 0, "a state with nothing to run runs nothing"); frame_kept(s, nullptr, par, own, IT::None); }
	vc_assert(s->_has_value.load() == h && vc::nev == 0, "a turn changes no result");
}
VC_HARNESS(initial_suspend) {
	auto* tf = vc::task_frame<promise_t<uint64_t>>(nullptr); auto* s = tf->promise.get_state();
	auto aw = tf->promise.initial_suspend();
	vc_assert(!aw.await_ready(), "a coroutine does not start by itself");
	aw.await_suspend(vc::handle(tf));
	vc_assert(s->_is_initor == IT::Initial && s->_initor.address() == (void*)tf && !s->_coro && s->_has_value.load() == RT::None && vc::nev == 0, "a new coroutine waits for its start");
	future_t<uint64_t> f = tf->promise.get_return_object();
	vc_assert(f._state.get() == s && s->_count.load() == 2, "promise and future hold the state");
	vc_cover("initial");
}
VC_HARNESS(final_suspend) {
	auto* tf = vc::task_frame<promise_t<uint64_t>>(nullptr); auto* s = tf->promise.get_state();
	sch = vc::any_scheduler("sch"); under = s; vc::on_added = held_GHOST;
	if (vc_choose("inherited")) { SF* root = SF::_Alloc_state<state_t<int>>(false); root->lock(); root->_scheduler = sch; s->_parent = root; } else s->_scheduler = sch;
	void* c = vc_choose("awaited") ? vc::coro() : nullptr; s->_coro = coroutine_handle<>::from_address(c);
	ops<uint64_t>::fill(s, 1); uint64_t n = vc::count("holders"); vc_assume(n >= 1); s->_count.store((intptr_t)n);
	auto aw = tf->promise.final_suspend();
	vc_assert(!aw.await_ready(), "an ended coroutine is kept for its scheduler");
	vc_guard(&s->_is_initor, 1, &s->_mtx); vc_guard(&s->_initor, sizeof(s->_initor), &s->_mtx);
	aw.await_suspend(vc::handle(tf));
	vc_unguard();
	vc_assert(s->_is_initor == IT::Final && s->_initor.address() == (void*)tf && s->_coro.address() == c, "an ended coroutine is handed to its scheduler to be destroyed");
	scheduled(1, 1); vc_assert(vc::destroys == 0 && (uint64_t)s->_count.load() == n && vc_nheld() == 0, "an ended coroutine is destroyed by the scheduler only");
	vc_cover("final");
}
// the promise interface the compiler calls: co_return, co_yield, an exception that leaves the body, co_await of something with a state
template<class T> static void promise_() {
	auto* tf = vc::raw<vc::frame<promise_t<T>>>("frame"); bool ended = vc_choose("ended");
	tf->resume = ended ? nullptr : vc::resume_fn; tf->destroy = vc::destroy_fn; ::new ((void*)&tf->promise) promise_t<T>();
	auto* s = tf->promise.get_state();
	V = vc::u64("V"); W = vc::u64("W"); cells[0] = W; sch = vc::any_scheduler("sch"); if (vc_choose("scheduled")) s->_scheduler = sch;
	bool on = s->_scheduler != nullptr; under = s; vc::on_added = held_GHOST;
	void* c = vc_choose("awaited") ? vc::coro() : nullptr; s->_coro = coroutine_handle<>::from_address(c);
	if (vc_choose("return")) { ops<T>::ret(tf->promise, W); vc_assert(s->_has_value.load() == RT::Value && ops<T>::peek(s) == W, "what a coroutine returns is its result"); scheduled(on && c ? 1 : 0, -1); vc_cover("return"); }
	else if (vc_choose("yield")) {
		ops<T>::yield(tf->promise, W);
		vc_assert(s->_has_value.load() == RT::Value && ops<T>::peek(s) == W, "what a coroutine yields is its result");
		vc_assert(s->_coro.address() == (c ? c : ended ? nullptr : (void*)tf), "a coroutine that yields can be resumed");
		scheduled(on && !ended ? 1 : 0, 0); vc_cover("yield");
	} else {
		try { throw boom{ W }; } catch (...) { tf->promise.unhandled_exception(); }
		vc_assert(s->_has_value.load() == RT::Exception && is_boom(exc(s), W), "an exception that leaves a coroutine is its result"); scheduled(on && c ? 1 : 0, -1); vc_cover("throw");
	}
	vc_assert(s->_count.load() == 1 && vc_nheld() == 0, "holders balance");
}
VC_HARNESS(promise_value) { promise_<uint64_t>(); }
VC_HARNESS(promise_object) { promise_<tracked>(); }
VC_HARNESS(promise_ref) { promise_<uint64_t&>(); }
VC_HARNESS(promise_void) { promise_<void>(); }
VC_HARNESS(await_transform) {
	auto* tf = vc::task_frame<promise_t<int>>(nullptr); scheduler_t* q = vc::any_scheduler("sch"); SF* ts = tf->promise.get_state();
	if (vc_choose("nested")) { SF* root = SF::_Alloc_state<state_t<int>>(false); root->lock(); root->_scheduler = q; ts->_parent = root; } else ts->_scheduler = q;
	future_t<uint64_t> f{ counted_ptr<state_t<uint64_t>>(SF::_Alloc_state<state_t<uint64_t>>(true)) };
	vc_assert(&tf->promise.await_transform(f) == &f, "co_await waits for its operand"); vc_assert(f._state->get_scheduler() == q, "what is awaited runs on the scheduler of the task");
	int x; vc_assert(&tf->promise.await_transform(x) == &x, "co_await waits for its operand");
	vc_cover("transform");
}
// hand-made awaitables: completing hands over the holder, exactly one schedule, nothing leaks
template<class T> static void awaitable_() {
	uint64_t mark = vc_mark();
	int64_t l0 = live; W = vc::u64("W"); cells[0] = W;
	{
		awaitable_t<T> a; auto* s = a._state.get();
		vc_assert(a && s->_count.load() == 1, "a new awaitable can be completed");
		future_t<T> f = a.get_future(); vc_assert(f._state.get() == s && s->_count.load() == 2, "awaitable and future share the state");
		sch = vc::any_scheduler("sch"); under = s; vc::on_added = held_GHOST;
		bool early = vc_choose("completed first"), ex = vc_choose("exception");
		auto* tf = vc::task_frame<promise_t<int>>(sch);
		auto done = [&] {
			if (!ex) ops<T>::aput(a, W);
			else if (vc_choose("throw_exception")) a.throw_exception(boom{ W }); else a.set_exception(std::make_exception_ptr(boom{ W }));
		};
		if (early) { done(); vc_assert(f.await_ready(), "a completed result is ready"); if (vc_choose("suspend anyway")) { f.await_suspend(vc::handle(tf)); scheduled(1, -1); } }
		else { vc_assert(!f.await_ready(), "no result yet"); f.await_suspend(vc::handle(tf)); scheduled(0, -1); done(); scheduled(1, -1); }
		vc_assert(!a && s->_count.load() == 1, "completing hands the state over");
		int got = 0;
		try { vc_assert(ops<T>::ftake(f, W), "co_await returns the value the operation completed with"); got = 1; } catch (boom& b) { vc_assert(b.v == W, "co_await throws the exception the operation completed with"); got = 2; }
		vc_assert(got == (ex ? 2 : 1), "co_await returns the value or throws the exception");
		tf->promise.~promise_t<int>();
		if (early) vc_cover("early"); else vc_cover("late");
	}
	vc_assert(live == l0, "every value is destroyed"); vc_assert(vc_leaks(mark) == 0, "the state is freed with its last holder");
}
VC_HARNESS(awaitable_value) { awaitable_<uint64_t>(); }
VC_HARNESS(awaitable_object) { awaitable_<tracked>(); }
VC_HARNESS(awaitable_ref) { awaitable_<uint64_t&>(); }
VC_HARNESS(awaitable_void) { awaitable_<void>(); }
// ------------------------------------------------------------------ whole tasks: real compiled coroutine bodies under a first-in first-out scheduler
static counted_ptr<state_base_t> rq[16]; static int rq_h, rq_t; static counted_ptr<state_base_t> registry[4]; static int n_retired;
static void q_add_GHOST(scheduler_t* s, state_base_t* st) { vc_assert(s == sch, "a task stays on its scheduler"); vc_assert(rq_t < 16, "bounded"); rq[rq_t++] = st; }
static void q_final_GHOST(scheduler_t* s, state_base_t* st) { vc_assert(s == sch, "a task stays on its scheduler"); for (auto& r : registry) if (r.get() == st) { ++n_retired; r.reset(); } }
static void run_GHOST() { while (rq_h < rq_t) { counted_ptr<state_base_t> s(std::move(rq[rq_h++])); s->resume(); } }
template<class F> static void start_GHOST(int i, F&& f) { registry[i] = f._state.get(); registry[i]->set_scheduler(sch); if (registry[i]->has_handler()) q_add_GHOST(sch, registry[i].get()); }
static uint64_t out; static int outs, excs, body_runs;
struct body_obj { ~body_obj() { ++body_runs; } };
static future_t<uint64_t> child(int kind, future_t<uint64_t> f, uint64_t v) {
	body_obj o;
	if (kind == 0) co_return v;
	if (kind == 1) throw boom{ v };
	uint64_t x = co_await f;
	co_return x;
}
static future_t<void> child_void(int kind, future_t<void> f, uint64_t v) {
	body_obj o;
	if (kind == 1) throw boom{ v };
	if (kind == 2) co_await f;
}
static future_t<void> top(int kind, future_t<uint64_t> f, uint64_t v) {
	body_obj o;
	try { out = co_await child(kind, f, v); ++outs; } catch (boom& b) { out = b.v; ++excs; }
}
static future_t<void> top_void(int kind, future_t<void> f, uint64_t v) {
	body_obj o;
	try { co_await child_void(kind, f, v); out = v; ++outs; } catch (boom& b) { out = b.v; ++excs; }
}
template<class T, class F> static void compiled(F mk) {
	uint64_t mark = vc_mark();
	vc::on_added = q_add_GHOST; vc::on_final = q_final_GHOST; sch = vc::any_scheduler("sch");
	int kind = vc_choose("return") ? 0 : vc_choose("throw") ? 1 : 2; uint64_t v = vc::u64("v"); outs = excs = 0;
	bool ex = kind == 1; bool early = kind == 2 && vc_choose("completed first"); if (kind == 2) ex = vc_choose("exception");
	{
		awaitable_t<T> a;
		auto done = [&] { if (ex) a.throw_exception(boom{ v }); else if constexpr (std::is_void_v<T>) a.set_value(); else a.set_value(v); };
		future_t<T> f = a.get_future();
		if (early) done();
		start_GHOST(0, mk(kind, std::move(f), v));
		vc_assert(body_runs == 0 && outs + excs == 0, "a task does not run before its scheduler runs it");
		run_GHOST();
		if (kind == 2 && !early) { vc_assert(outs + excs == 0 && n_retired == 0, "a task waits for its result"); done(); vc_assert(outs + excs == 0, "a task is resumed by its scheduler only"); run_GHOST(); }
	}
	vc_assert(outs == (ex ? 0 : 1) && excs == (ex ? 1 : 0), "the awaiting task goes on exactly once, with the value or the exception");
	vc_assert(out == v, "the awaiting task gets what the operation completed with");
	vc_assert(n_retired == 1 && body_runs == 2, "a finished task is retired and its coroutines destroyed, once");
	vc_assert(vc_leaks(mark) == 0, "coroutine frames and states are freed exactly once");
	vc_cover("compiled");
}
VC_HARNESS(compiled_value) { compiled<uint64_t>(top); }
VC_HARNESS(compiled_void) { compiled<void>(top_void); }
// ------------------------------------------------------------------ C13: holders
struct held { uint64_t refs; bool dead = false; int n_free = 0;
	void lock_GHOST() { vc_assert(!dead, "a freed state gets no new holder"); ++refs; }
	void unlock_GHOST() { vc_assert(!dead && refs > 0, "a holder lets go once"); if (vc_split(--refs == 0)) { dead = true; ++n_free; } }
	void lock() { lock_GHOST(); } void unlock() { unlock_GHOST(); } };
using HP = counted_ptr<held>;
static held* A; static held* B;
static held* any_held(const char* n) { held* h = new held; h->refs = vc::count(n); return h; }
// k pointers of the harness hold A, j hold B; everything else is held by others
static void held_by(uint64_t a0, int da, uint64_t b0, int db) {
	if (A) vc_assert(A->refs == a0 + da && A->dead == (A->refs == 0), "a state is held exactly as often as holders point to it");
	if (B && B != A) vc_assert(B->refs == b0 + db && B->dead == (B->refs == 0), "a state is held exactly as often as holders point to it");
}
static HP* hold(held* h) { HP* p = new HP; p->_p = h; if (h) { ++h->refs; } return p; }
static uint64_t a0, b0;
static void any_two() {
	A = any_held("others_A"); B = vc_choose("same state") ? A : any_held("others_B"); a0 = A->refs; b0 = B->refs;
	if (vc_choose("A null")) A = nullptr; if (vc_choose("B null")) B = nullptr;
}
static bool sameAB() { return A && A == B; }
VC_HARNESS(cp_copy) { any_two(); B = nullptr; HP* x = hold(A); { HP y(*x); vc_assert(y.get() == A && x->get() == A && (A == nullptr) == (y == nullptr), "a copy points to the same state"); held_by(a0, 2, 0, 0); vc_cover("copy"); } held_by(a0, 1, 0, 0); delete x; held_by(a0, 0, 0, 0); }
VC_HARNESS(cp_raw) { any_two(); B = nullptr; { HP y(A); vc_assert(y.get() == A && y.operator->() == A && (held*)y == A, "points to the state"); held_by(a0, 1, 0, 0); vc_cover("raw"); } held_by(a0, 0, 0, 0); }
VC_HARNESS(cp_move) { any_two(); B = nullptr; HP* x = hold(A); { HP y(std::move(*x)); vc_assert(y.get() == A && x->get() == nullptr, "a move hands over"); held_by(a0, 1, 0, 0); delete x; held_by(a0, 1, 0, 0); vc_cover("move"); } held_by(a0, 0, 0, 0); }
VC_HARNESS(cp_assign) {
	any_two(); HP* x = hold(A); HP* y = hold(B); bool s = sameAB();
	*x = *y; vc_assert(x->get() == B && y->get() == B, "an assigned pointer points to the assigned state");
	if (s) held_by(a0, 2, 0, 0); else held_by(a0, 0, b0, 2);
	delete x; if (s) held_by(a0, 1, 0, 0); else held_by(a0, 0, b0, 1);
	delete y; if (s) held_by(a0, 0, 0, 0); else held_by(a0, 0, b0, 0); vc_cover("assign");
}
VC_HARNESS(cp_move_assign) {
	any_two(); HP* x = hold(A); HP* y = hold(B); bool s = sameAB();
	*x = std::move(*y); vc_assert(x->get() == B && y->get() == nullptr, "a move hands over");
	if (s) held_by(a0, 1, 0, 0); else held_by(a0, 0, b0, 1);
	delete x; delete y; if (s) held_by(a0, 0, 0, 0); else held_by(a0, 0, b0, 0); vc_cover("move assign");
}
VC_HARNESS(cp_self) { any_two(); B = nullptr; HP* x = hold(A); *x = *(HP*)x; *x = std::move(*(HP*)x); x->swap(*x); vc_assert(x->get() == A, "assigning a pointer to itself changes nothing"); held_by(a0, 1, 0, 0); delete x; held_by(a0, 0, 0, 0); vc_cover("self"); }
VC_HARNESS(cp_swap) { any_two(); HP* x = hold(A); HP* y = hold(B); bool s = sameAB(); if (vc_choose("member")) x->swap(*y); else std::swap(*x, *y); vc_assert(x->get() == B && y->get() == A, "swap exchanges"); if (s) held_by(a0, 2, 0, 0); else held_by(a0, 1, b0, 1); delete x; delete y; if (s) held_by(a0, 0, 0, 0); else held_by(a0, 0, b0, 0); vc_cover("swap"); }
VC_HARNESS(cp_compare) {
	any_two(); HP* x = hold(A); HP* y = hold(B);
	vc_assert((*x == *y) == (A == B), "two pointers are equal iff they point to the same state");
	vc_assert((*x == nullptr) == (A == nullptr) && (nullptr == *x) == (A == nullptr), "a pointer equals null iff it is empty");
	vc_assert((*x != nullptr) == (A != nullptr) && (nullptr != *x) == (A != nullptr), "a pointer differs from null iff it is not empty");
	if (sameAB()) held_by(a0, 2, 0, 0); else held_by(a0, 1, b0, 1);
	delete x; delete y; vc_cover("compare");
}
VC_HARNESS(cp_reset) { any_two(); B = nullptr; HP* x = hold(A); x->reset(); vc_assert(x->get() == nullptr && *x == nullptr, "a reset pointer is empty"); held_by(a0, 0, 0, 0); x->reset(); delete x; held_by(a0, 0, 0, 0); vc_cover("reset"); HP e; vc_assert(e.get() == nullptr, "a new pointer is empty"); }
// a holder that is (re)assigned from inside the state it lets go: the pointer is updated before the old state is released
// ------------------------------------------------------------------ the count itself, under every interference of other holders
static state_base_t* cs; static int64_t own; static uint64_t cc; static bool last_gone, others_may_free;
static void others() { cc = vc::count("holders"); vc_assume((int64_t)cc >= own); cs->_count.store((intptr_t)cc, std::memory_order_relaxed); }
static void count_hook(void* p, int kind, int order) {
	if (p != (void*)&cs->_count) return;
	if (kind == 0) return;
	uint64_t now = (uint64_t)cs->_count.load(std::memory_order_relaxed);
	vc_assert(kind == 2, "the number of holders changes by read-modify-write steps only");
	bool up = vc_split(now == cc + 1);
	if (!up) { vc_assert(now + 1 == cc, "one step changes one holder"); vc_assert(order >= 3, "a holder lets go with release and acquire"); --own; vc_assert(own >= 0, "only an own holder is given up"); } else ++own;
	cc = now;
	if (own == 0) { if (vc_split(now == 0)) last_gone = true; else { others_may_free = true; vc_kill(cs); } return; }
	others();
}
template<class S> static void counted(S* s, int64_t mine) {
	cs = s; own = mine; last_gone = others_may_free = false; others(); vc_atomhook(count_hook);
}
template<class T> static void freed(int kind) {
	uint64_t mark = vc_mark(); int64_t l0 = live;
	auto* s = SF::_Alloc_state<state_t<T>>(vc_choose("hand made"));
	if (kind == 1) ops<T>::fill(s, 1); if (kind == 2) put_exc(s, 1);
	counted(s, 1);
	if (vc_choose("by pointer")) { counted_ptr<state_t<T>> p; p._p = s; { counted_ptr<state_t<T>> q(p); vc_assert(own == 2, "a holder"); } vc_assert(own == 1 && !last_gone, "the state lives as long as it is held"); }
	else s->unlock();
	vc_atomhook(nullptr);
	if (last_gone) { vc_cover("last"); vc_assert(vc_freed(s), "the last holder frees the state"); vc_assert(live == l0, "the value goes with the state, once"); vc_assert(vc_leaks(mark) == 0, "the state and its exception are freed"); }
	else { vc_cover("not last"); vc_assert(others_may_free, "not the last holder"); }
}
#define FREED(name, T) VC_HARNESS(free_##name##_none) { freed<T>(0); } VC_HARNESS(free_##name##_set) { freed<T>(1); } VC_HARNESS(free_##name##_exc) { freed<T>(2); }
FREED(value, uint64_t) FREED(object, tracked) FREED(ref, uint64_t&) FREED(void, void)
VC_HARNESS(free_generator) {
	uint64_t mark = vc_mark(); auto* s = state_generator_t::_Alloc_state(); counted(s, 1); s->unlock(); vc_atomhook(nullptr);
	if (last_gone) { vc_assert(vc_freed(s) && vc_leaks(mark) == 0, "the last holder frees the state"); vc_cover("last"); } else vc_assert(others_may_free, "not the last holder");
}
static int n_base; struct plain_state final : state_base_t { ~plain_state() { ++n_base; } };
VC_HARNESS(free_plain) {
	n_base = 0; plain_state* s = new plain_state; counted(s, 1); s->unlock(); vc_atomhook(nullptr);
	if (last_gone) { vc_assert(vc_freed(s) && n_base == 1, "the last holder frees the state"); vc_cover("last"); } else vc_assert(others_may_free && n_base == 0, "not the last holder");
}
VC_HARNESS(new_holder) {
	plain_state* s = new plain_state; counted(s, 1); s->lock(); vc_atomhook(nullptr);
	vc_assert(own == 2 && !last_gone, "a new holder counts"); vc_cover("lock");
}
// promise, future and awaitable objects: each is one holder
template<class T> static void objects() {
	uint64_t mark = vc_mark(); uint64_t k;
	{
		auto* p = new promise_t<T>; auto* s = p->get_state();
		vc_assert(s->_count.load() == 1 && s->_is_future, "a promise holds its state");
		{ future_t<T> f = p->get_return_object(); vc_assert(s->_count.load() == 2, "a future holds its state"); future_t<T> g(f); vc_assert(s->_count.load() == 3, "a copied future holds its state"); future_t<T> h(std::move(g)); vc_assert(s->_count.load() == 3 && g._state.get() == nullptr, "a moved future hands over");
		  promise_t<T> q; auto* s2 = q.get_state(); future_t<T> e = q.get_return_object(); e = f; vc_assert(s->_count.load() == 4 && s2->_count.load() == 1, "an assigned future lets go of its state"); e = std::move(h); vc_assert(s->_count.load() == 3, "an assigned future lets go of its state"); }
		vc_assert(s->_count.load() == 1, "a future lets go of its state");
		delete p; vc_assert(vc_freed(s), "the state is freed with its last holder");
	}
	{
		awaitable_t<T> a; auto* s = a._state.get(); vc_assert(s->_count.load() == 1 && !s->_is_future, "an awaitable holds its state");
		awaitable_t<T> b(a); vc_assert(s->_count.load() == 2, "a copied awaitable holds its state"); awaitable_t<T> c(std::move(b)); vc_assert(s->_count.load() == 2 && !b && c, "a moved awaitable hands over");
		awaitable_t<T> d; d = c; vc_assert(s->_count.load() == 3, "an assigned awaitable holds its state"); d = std::move(c); vc_assert(s->_count.load() == 2 && d && !c, "an assigned awaitable lets go");
		auto* s2 = awaitable_t<T>()._state.get(); vc_assert(vc_freed(s2), "the state is freed with its last holder");
	}
	vc_assert(vc_leaks(mark) == 0, "every state is freed"); vc_cover("objects");
}
VC_HARNESS(objects_value) { objects<uint64_t>(); }
VC_HARNESS(objects_object) { objects<tracked>(); }
VC_HARNESS(objects_ref) { objects<uint64_t&>(); }
VC_HARNESS(objects_void) { objects<void>(); }
VC_HARNESS(frame_memory) {
	uint64_t n = vc::u64("size"); vc_assume(n > 0 && n < 4096); uint64_t mark = vc_mark();
	void* p = promise_t<int>::operator new(n); promise_t<int>::operator delete(p, n); vc_assert(vc_leaks(mark) == 0, "the memory of a coroutine is freed once"); vc_cover("frame");
}
