// C20: generator_t and its iterator over every coroutine body: a body is a sequence of n yielded values (n unbounded)
// followed by one returned value; the body is the ghost function behind the coroutine frame.
#include "vc_sched.h"
using namespace librf;
using G = generator_t<int>; using P = G::promise_type; using F = vc::frame<P>;
static F* fr; static uint64_t n, pos; static int* A; static int n_destroy; static bool is_done;
static void step_GHOST(void* f) {
	vc_assert(f == (void*)fr && !is_done && n_destroy == 0, "only a suspended, live generator is advanced");
	if (vc_split(pos < n)) { fr->promise.yield_value(A[pos]); ++pos; }
	else { fr->promise.return_value(A[n]); ++pos; is_done = true; fr->resume = nullptr; }
}
static void destroy_GHOST(void* f) {
	vc_assert(f == (void*)fr && ++n_destroy == 1, "the coroutine frame is destroyed once");
	fr->promise.~P();
	vc_kill(fr);
}
static state_generator_t* gst;
static F* body() {
	F* f = vc::raw<F>("generator_frame");
	f->resume = step_GHOST; f->destroy = destroy_GHOST;
	::new ((void*)&f->promise) P();
	return f;
}
static G* any_generator() {
	n = vc::count("yields"); A = (int*)vc_array(1ull << 42, 4, "values"); pos = 0; is_done = false; n_destroy = 0;
	fr = body(); gst = fr->promise.get_state();
	return new G(fr->promise.get_return_object());
}
static uint64_t vis; static G::iterator* it;
static void lc_check() {
	uint64_t k = vc_k();
	vc_assert(vis == k && n_destroy == 0, "loop: one value per step");
	vc_assert(k <= n + 1 && n > 0, "loop: no value beyond the last");
	if (k <= n) { vc_assert(it->_Coro.address() == (void*)fr && pos == k + 1 && is_done == (k == n), "loop: the body has produced value k"); vc_assert(*fr->promise._CurrentValue == A[k], "loop: the body has produced value k"); }
	else vc_assert(it->_Coro.address() == nullptr, "loop: ended");
}
static void lc_havoc() {
	uint64_t k = vc_k(); vis = k; vc_assume(k <= n + 1 && n > 0);
	is_done = vc_split(k >= n);
	pos = k + 1; fr->resume = is_done ? nullptr : step_GHOST;
	it->_Coro = vc_split(k <= n) ? coroutine_handle<P>::from_address(fr) : coroutine_handle<P>();
	if (is_done) { pos = n + 1; fr->promise.return_value(A[n]); } else fr->promise.yield_value(A[k]);
}
VC_HARNESS(iterate) {
	G* g = any_generator();
	it = new G::iterator(g->begin()); vis = 0;
	if (n == 0) {
		vc_cover("no yield");
		vc_assert(*it == g->end(), "a generator that returns without a yield is empty");
		delete g; vc_assert(n_destroy == 1, "the frame goes with the generator");
		return;
	}
	bool deref = vc_choose("by arrow");
	vc_loop_contract(lc_check, lc_havoc, "iteration");
	while (*it != g->end()) {
		vc_assert(vis <= n, "no value beyond the last");
		int v = deref ? *it->operator->() : **it;
		vc_assert(v == A[vis], "value number k is the k-th one the body produced");
		++vis;
		++*it;
	}
	vc_loop_contract(nullptr, nullptr, "");
	vc_assert(vis == n + 1 && is_done && pos == n + 1, "an iteration visits every yielded value and the returned one, then ends");
	vc_assert(n_destroy == 0, "the frame lives as long as the generator");
	vc_cover("all values visited");
	delete g;
	vc_assert(n_destroy == 1, "the frame goes with the generator");
	vc_assert(vc_freed(gst), "the state goes with the frame");
}
VC_HARNESS(partial) {
	// any number of values already read, then the generator goes: advance one more at that point is the next value
	G* g = any_generator(); vc_assume(n > 1);
	pos = vc::u64("read"); vc_assume(pos >= 1 && pos < n);
	fr->promise._CurrentValue = &A[pos - 1];
	it = new G::iterator(coroutine_handle<P>::from_address(fr));
	uint64_t p0 = pos;
	vc_assert(*it != g->end() && *it == G::iterator(coroutine_handle<P>::from_address(fr)), "an unfinished iteration is not at the end");
	if (vc_choose("postfix")) (*it)++; else ++*it;
	vc_assert(pos == p0 + 1 && **it == A[p0], "one step advances the body by one value");
	if (vc_choose("unread")) { delete g; vc_assert(n_destroy == 1, "a generator that is left unread is destroyed once"); vc_cover("left unread"); }
}
VC_HARNESS(unstarted) {
	G* g = any_generator();
	delete g;
	vc_assert(pos == 0 && n_destroy == 1 && vc_freed(gst), "a generator that is never read is destroyed once and never run");
	vc_cover("unstarted");
	G* e = new G(); vc_assert(e->begin() == e->end(), "an empty generator has no value"); delete e;
	vc_assert(n_destroy == 1, "an empty generator owns nothing");
}
VC_HARNESS(move_ctor) {
	G* g = any_generator(); G* h = new G(std::move(*g));
	delete g; vc_assert(n_destroy == 0 && h->_Coro.address() == (void*)fr, "a moved generator keeps its body");
	delete h; vc_assert(n_destroy == 1, "a moved generator is destroyed once");
	vc_cover("move");
}
static int n_destroy2; static F* fr2;
static void destroy2_GHOST(void* f) { vc_assert(f == (void*)fr2 && ++n_destroy2 == 1, "the coroutine frame is destroyed once"); fr2->promise.~P(); vc_kill(fr2); }
VC_HARNESS(move_assign) {
	G* g = any_generator();
	bool e1 = vc_choose("target empty"), e2 = vc_choose("source empty");
	G* h = new G();
	if (!e1) { fr2 = body(); fr2->destroy = destroy2_GHOST; h->_Coro = coroutine_handle<P>::from_address(fr2); }
	if (e2) { vc_kill(fr); fr = nullptr; g->_Coro = nullptr; }
	*h = std::move(*g);
	vc_assert(h->_Coro.address() == (void*)fr && g->_Coro.address() == nullptr, "an assigned generator has the assigned body");
	delete g; vc_assert(n_destroy == 0, "an assigned generator keeps its body");
	delete h;
	vc_assert(n_destroy == (e2 ? 0 : 1), "an assigned generator is destroyed once");
	vc_assert(n_destroy2 == (e1 ? 0 : 1), "the generator that is overwritten is destroyed once");
	vc_cover("assign");
}
VC_HARNESS(self_assign) {
	G* g = any_generator(); *g = std::move(*(G*)g);
	vc_assert(n_destroy == 0 && g->_Coro.address() == (void*)fr, "assigning a generator to itself changes nothing"); vc_cover("self");
}
VC_HARNESS(detach) {
	G* g = any_generator();
	state_generator_t* s = g->detach_state();
	vc_assert(s == gst && s->_coro.address() == (void*)fr, "a generator handed to a scheduler is known by its state");
	delete g; vc_assert(n_destroy == 0, "a generator handed over lives on");
	vc_cover("detach");
}
// run by a scheduler: one step per turn, destroyed after its end
VC_HARNESS(gen_resume) {
	G* g = any_generator(); state_generator_t* s = g->detach_state(); delete g;
	scheduler_t* sch = vc::any_scheduler("sch"); s->_scheduler = sch; s->lock();
	pos = vc::u64("steps"); vc_assume(pos <= n); uint64_t p0 = pos;
	s->resume();
	vc_assert(pos == p0 + 1, "one turn advances a generator by one step");
	if (is_done) {
		vc_cover("last step");
		vc_assert(n_destroy == 1 && vc::nev == 1 && vc::evs[0].op == 2 && vc::evs[0].st == s && vc::evs[0].sch == sch, "a generator that ended is retired and destroyed, once");
		vc_assert(!vc_freed(s) && !s->has_handler(), "the state lives while its task holds it");
		s->resume();
		vc_assert(n_destroy == 1 && vc::nev == 1 && pos == p0 + 1, "an ended generator is not run again");
	} else {
		vc_cover("step");
		vc_assert(n_destroy == 0 && vc::nev == 1 && vc::evs[0].op == 1 && vc::evs[0].st == s && vc::evs[0].sch == sch, "a generator that goes on is scheduled again, once");
		vc_assert(s->has_handler(), "a generator that goes on can be run");
	}
}
// the compiled coroutine of a real body, with a symbolic number of yields: values, return value and destruction
static int live; struct D { D() { ++live; } ~D() { --live; } };
static G real_body(uint64_t m, const int* a) { D d; for (uint64_t i = 0; i < m; ++i) co_yield a[i] + 1; co_return a[m] + 1; }
VC_HARNESS(compiled_body) {
	uint64_t mark = vc_mark();
	int a[4]; for (int i = 0; i < 4; ++i) a[i] = (int)vc::u32("value");
	uint64_t m = vc_choose("none") ? 0 : vc_choose("one") ? 1 : 2;
	uint64_t take = vc_choose("stop early") ? 1 : 9, k = 0;
	{
		G g = real_body(m, a);
		vc_assert(live == 0, "a generator does not run before it is read");
		for (const int& x : g) { vc_assert(x == a[k] + 1, "values come in the order of the body"); ++k; if (k == take) break; }
		if (m == 0) vc_assert(k == 0, "nothing yielded"); else vc_assert(k == (take == 1 ? 1 : m + 1), "every value is visited");
	}
	vc_assert(live == 0, "what the body holds goes with the generator");
	vc_assert(vc_leaks(mark) == 0, "nothing is left behind");
	vc_cover("compiled body");
}
