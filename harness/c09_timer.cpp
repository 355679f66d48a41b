// C09: timers, from every state of the timer manager: any number of new and of running timers, whatever handlers and other threads do.
#include "vc_mmap.h"
#include "librf/librf.h"
#include "vc.h"
#undef go
using namespace librf;
using TT = detail::timer_target; using TP = detail::timer_target_ptr; using VEC = timer_manager::timer_vector_type; using MAP = timer_manager::timer_map_type;
using CK = detail::timer_clock_type; using KEY = CK::time_point; using ST = TT::State;
static timer_manager* M; static int64_t now_v; static bool now_read;
static int64_t cnt(const KEY& k) { return k.time_since_epoch().count(); }
static KEY key_of(int64_t c) { return KEY(CK::duration(c)); }
static int64_t now_stub() { int64_t x = (int64_t)vc::u64("now"); vc_assume(x > 0 && x < (1ll << 61) && (!now_read || x >= now_v)); now_v = x; now_read = true; return x; }
VC_CONTRACT("std::chrono::(_V2::)?system_clock::now\\(\\)", now_stub, "trusted")
static void no_locks(const char* w) { vc_assert(vc_nheld() == 0, w); }
static void grow(VEC* v, VEC::iterator pos, const TP& p) {
	vc_assert(pos == v->end() && v->_M_impl._M_finish == v->_M_impl._M_end_of_storage, "growing at the end of a full array");
	++v->_M_impl._M_end_of_storage; ::new ((void*)v->_M_impl._M_finish) TP(p); ++v->_M_impl._M_finish;
}
static void grow_move(VEC* v, VEC::iterator pos, TP&& p) {
	vc_assert(pos == v->end() && v->_M_impl._M_finish == v->_M_impl._M_end_of_storage, "growing at the end of a full array");
	++v->_M_impl._M_end_of_storage; ::new ((void*)v->_M_impl._M_finish) TP(std::move(p)); ++v->_M_impl._M_finish;
}
VC_CONTRACT("void std::vector<std::shared_ptr<librf::detail::timer_target>.*>::_M_realloc_insert<std::shared_ptr<librf::detail::timer_target> const&>\\(.*\\)", grow, "trusted")
VC_CONTRACT("void std::vector<std::shared_ptr<librf::detail::timer_target>.*>::_M_realloc_insert<std::shared_ptr<librf::detail::timer_target>>\\(.*\\)", grow_move, "trusted")
// ------------------------------------------------------------------ timers under ghost observation
enum { NEW, RUNNING, MINE };
static uint64_t ncall, nrun, nerased, waiting_n;   // waiting_n: how many timers must be waiting
 static bool only_cancel; static int64_t last_due; static bool any_due;
static void anything_GHOST();
struct gt : TT {
	int list = MINE; uint64_t idx = 0; int called = 0; bool inserted = false, was_stopped = false, may_call = true; uint32_t others = 0;
	gt(const KEY& t) : TT(t, [this](bool c) { run_GHOST(c); }) {}
	void run_GHOST(bool c) {
		no_locks("handlers run with no lock held");
		vc_assert(called == 0 && may_call, "a handler is called once"); ++called; ++ncall;
		vc_assert(!inserted, "a timer that waits for its time is not called");
		vc_assert(st == ST::Invalid, "a timer whose handler runs can no longer be stopped");
		vc_assert(c == (only_cancel || list == NEW || was_stopped), "a stopped timer never fires as elapsed, an active one is not reported as cancelled");
		if (!only_cancel && list == RUNNING) {
			++nrun;
			vc_assert(now_read && cnt(tp) <= now_v, "no handler is called before its time");
			vc_assert(!any_due || last_due <= cnt(tp), "handlers are called in order of due time"); any_due = true; last_due = cnt(tp);
		}
		anything_GHOST();
	}
};
static uint64_t cur_others; static gt* all_g[16]; static int g_list[16]; static uint64_t n_all;   // bounded stand-in: all timers
static TP make_GHOST(gt*& g, int list, uint64_t i, const KEY& due) {
	auto p = std::make_shared<gt>(due); g = p.get(); g->list = list; g->idx = i; g->others = vc::u32("holders"); vc_assume(g->others < (1u << 30));
	p._M_refcount._M_pi->_M_use_count = (int)(1 + g->others); cur_others = g->others; if (vc_bound() && n_all < 16) g_list[n_all] = list, all_g[n_all++] = g;
	return p;
}
static bool released(gt* g, uint64_t held) { if (vc_freed(g)) return held == 0; return (uint64_t)g->weak_from_this().use_count() == held; }
// how far the operation has come: pass 0: not started
static int pass; static gt* cur; static TP* cell; static uint64_t N, NM, C, looked; static TP* A;
static void* mk_new(uint64_t i, void*) {
	cell = (TP*)vc_alloc(sizeof(TP), "elem"); ::new ((void*)cell) TP(); cur = nullptr; looked = i + 1;
	if (!only_cancel && pass >= 2 && vc_choose("waits now")) return cell;   // what the first pass leaves of a timer that waits for its time
	*cell = make_GHOST(cur, NEW, i, key_of((int64_t)vc::u64("due")));
	if (pass == (only_cancel ? 3 : 3)) { cur->st = ST::Invalid; cur->called = 1; cur->may_call = false; cur->cb = nullptr; }
	else cur->st = !only_cancel && pass == 2 ? ST::Invalid : vc_choose("stopped") ? ST::Invalid : ST::Added;
	cur->was_stopped = cur->st == ST::Invalid;
	return cell;
}
static TP mk_run_value(const KEY& k) { TP p = make_GHOST(cur, RUNNING, 0, k); cur->was_stopped = vc_choose("stopped"); cur->st = cur->was_stopped ? ST::Invalid : ST::Runing; return p; }
static MAP::value_type* mk_entry(uint64_t i, void*) {
	auto* e = (MAP::value_type*)vc_alloc(sizeof(MAP::value_type), "entry"); KEY k = key_of((int64_t)vc::u64("due"));
	::new ((void*)e) MAP::value_type(k, mk_run_value(k)); cur->idx = i; return e;
}
static KEY any_key_() { return key_of((int64_t)vc::u64("due")); }
static bool le_(const KEY& a, const KEY& b) { return cnt(a) <= cnt(b); }
static void on_insert(MAP* m, const KEY& k, TP& v) {
	gt* g = static_cast<gt*>(v.get());
	vc_assert(m == &M->_runing_timers && g && g == cur && g->list == NEW && !g->inserted && g->called == 0, "a new timer waits for its time, once");
	vc_assert(cnt(k) == cnt(g->tp), "a timer waits for its due time"); vc_assert(!g->was_stopped, "a stopped timer does not wait for its time");
	g->inserted = true; ++waiting_n;
}
static void on_erase() { ++nerased; --waiting_n; }
static TP* any_vec(VEC& v, uint64_t k, uint64_t m) {
	TP* a = (TP*)vc_lazy_array(m, sizeof(TP), mk_new, nullptr, "new timers");
	v._M_impl._M_start = a; v._M_impl._M_finish = a + k; v._M_impl._M_end_of_storage = a + m; return a;
}
static bool taken;
static void any_added() { N = vc::count("new timers"); C = vc::count("capacity"); vc_assume(N <= C); if (vc_bound()) vc_assume(N + NM <= 3 && C == N); A = any_vec(M->_added_timers, N, C + 1); M->_added_timers._M_impl._M_end_of_storage = A + C; }
// a handler may add timers (behind the lock: any_added), stop timers (their state is read when they are reached) and clear the manager
static void anything_GHOST() { if (vc_bound() && ncall != 1) return; if (vc_choose("the handler clears")) { M->_runing_timers.any_GHOST(0); waiting_n = 0; if (vc_bound() ? MAP::walked == ~0ull : pass <= 1) NM = 0; } }
static void hooks() { MAP::mk_value = mk_run_value; MAP::mk_entry = mk_entry; MAP::on_insert = on_insert; MAP::on_erase = on_erase; MAP::le = le_; MAP::any_key = any_key_; MAP::walk = false; }
static void acquire_GHOST(void* l) { vc_assert(l == &M->_added_mtx, "the lock of the manager"); any_added(); }
static void start() {
	hooks(); M = (timer_manager*)vc_alloc(sizeof(timer_manager), "manager"); ::new ((void*)&M->_added_mtx) spinlock(); ::new ((void*)&M->_added_timers) VEC(); ::new ((void*)&M->_runing_timers) MAP();
	vc_guard(&M->_added_timers, sizeof(VEC), &M->_added_mtx); waiting_n = NM = vc::count("running timers"); M->_runing_timers.any_GHOST(NM);
	now_read = any_due = only_cancel = taken = false; ncall = nrun = nerased = n_all = 0; MAP::walked = ~0ull; pass = 0; cur = nullptr; vc::on_acquire = acquire_GHOST; vc::on_release = nullptr;
}
static void fin() { vc::on_acquire = vc::on_release = nullptr; vc_unguard(); no_locks("no lock is kept"); }
// ------------------------------------------------------------------ adding
static gt* mine;
static void rel_add_GHOST(void*) {
	VEC& v = M->_added_timers;
	vc_assert(v._M_impl._M_start == A && v._M_impl._M_finish == A + N + 1 && A[N].get() == mine, "an added timer is registered, once");
	if (N > 0) { uint64_t j = vc::u64("j"); vc_assume(j < N); vc_assert(A[j].get() && static_cast<gt*>(A[j].get())->idx == j, "the timers added before stay"); }
	vc_assert(mine->st == ST::Added, "an added timer is active"); taken = true;
}
VC_HARNESS(add_target) {
	start(); { TP p = make_GHOST(mine, MINE, 0, any_key_()); vc::on_release = rel_add_GHOST;
	TP r = M->add_(p); fin();
	vc_assert(taken && r.get() == mine, "an added timer is registered, once"); vc_assert(p.use_count() == (long)mine->others + 3, "holders balance"); }
	vc_assert(ncall == 0 && nerased == 0 && M->_runing_timers.n == NM, "adding calls nobody"); vc_cover("added"); if (vc_split(N == C)) vc_cover("grown");
}
static TP* kept; static bool keep_made; static TT* made; static int64_t made_due; static int n_made, fn_calls; static bool fn_arg; static timer_manager* made_by;
static void add_stub_GHOST(TP* ret, timer_manager* m, const TP& p) {
	if (mine) { ::new ((void*)ret) TP(m->add_(p)); return; }   // its own proof
	vc_assert(p && p->st == ST::Invalid, "a new timer"); made = p.get(); made_due = cnt(p->tp); ++n_made; made_by = m; if (keep_made) kept = new TP(p); ::new ((void*)ret) TP(p);
}
VC_CONTRACT("librf::timer_manager::add_\\(std::shared_ptr<librf::detail::timer_target> const&\\)", add_stub_GHOST, "C09")
struct fun { int* live; fun(int* l) : live(l) { ++*l; } fun(const fun& o) : live(o.live) { ++*live; } fun(fun&& o) : live(o.live) { ++*live; } ~fun() { --*live; } void operator()(bool c) const { ++fn_calls; fn_arg = c; } };
static void added(int64_t want, const TP& p) {
	vc_assert(n_made == 1 && made == p.get() && made_by == M, "one timer is registered"); vc_assert(made_due == want, "the due time is the one asked for");
	vc_assert(fn_calls == 0, "a new timer is not called"); p->cb(true); vc_assert(fn_calls == 1 && fn_arg, "the timer calls the handler it was given"); p->cb(false); vc_assert(fn_calls == 2 && !fn_arg, "the timer calls the handler it was given");
}
static int64_t some(const char* n) { int64_t d = (int64_t)vc::u64(n); vc_assume(d > -(1ll << 61) && d < (1ll << 61)); return d; }
VC_HARNESS(add_any) {
	start(); mine = nullptr; keep_made = false; n_made = fn_calls = 0; int live = 0; int kind = vc_choose("duration") ? 0 : vc_choose("time") ? 1 : vc_choose("milliseconds") ? 2 : 3; uint64_t mark = vc_mark();
	if (kind == 0) { int64_t d = some("dt"); fun f(&live); TP p = M->add(CK::duration(d), f); added(now_v + d, p); vc_cover("duration"); }
	if (kind == 1) { int64_t d = some("tp"); TP p = M->add(key_of(d), fun(&live)); added(d, p); vc_cover("time"); }
	if (kind == 2) { int d = (int)vc::u32("ms"); TP p = M->add(std::chrono::duration<int, std::milli>(d), fun(&live)); added(now_v + (int64_t)d * 1000000, p); vc_cover("milliseconds"); }
	if (kind == 3) { int64_t d = (int)vc::u32("s"); TP p = M->add(std::chrono::time_point<CK, std::chrono::seconds>(std::chrono::seconds(d)), fun(&live)); added(d * 1000000000, p); vc_cover("seconds"); }
	vc_assert(live == 0 && vc_leaks(mark) == 0, "a timer nobody holds releases its handler, once"); fin();
}
// ------------------------------------------------------------------ stopping
VC_HARNESS(stop) {
	start(); TP p; mine = nullptr; bool null = vc_choose("no timer"); ST s0{};
	if (!null) { p = make_GHOST(mine, MINE, 0, any_key_()); s0 = vc_choose("added") ? ST::Added : vc_choose("running") ? ST::Runing : ST::Invalid; mine->st = s0; }
	bool r = M->stop(p); fin();
	vc_assert(r == (!null && s0 != ST::Invalid), "a timer can be stopped exactly while it is active, once");
	if (!null) { vc_assert(mine->st == ST::Invalid, "a stopped timer is stopped"); vc_assert(mine->called == 0 && mine->cb, "stopping calls nobody"); vc_assert(!M->stop(p), "a timer is stopped once"); vc_assert(p.use_count() == (long)mine->others + 1, "holders balance"); }
	vc_assert(M->_runing_timers.n == NM, "stopping calls nobody"); if (r) vc_cover("stopped"); else vc_cover("not active");
}
// ------------------------------------------------------------------ update
static void update_check() {
	if (vc_k() == 0) { ++pass; cell = nullptr; cur = nullptr; looked = 0; }
	MAP& m = M->_runing_timers; vc_assert(m.n == waiting_n, "no waiting timer is dropped");
	if (pass <= 3) {
		vc_assert(vc_k() <= N, "every new timer is looked at");
		if (vc_k() > 0) {
			if (pass == 1) {
				vc_assert(cur && cur->idx + 1 == vc_k(), "every new timer is looked at"); vc_assert(cur->called == 0, "a handler that clears the timers meets all of them");
				vc_assert(cur->inserted == !cur->was_stopped, "an active new timer waits for its time, a stopped one does not");
				vc_assert(cur->st == (cur->inserted ? ST::Runing : ST::Invalid), "a timer that waits for its time is active");
				vc_assert((cell->get() == nullptr) == cur->inserted && (cur->inserted || cell->get() == cur), "the stopped timers remain");
				vc_assert(released(cur, cur_others + 1), "holders balance");
			}
			vc_assert(looked == vc_k(), "every new timer is looked at");
			if (pass == 2 && cur) vc_assert(!vc_freed(cur) && cur->called == 1 && !cur->cb && cell->get() == cur, "a timer stopped before it was seen is called, as cancelled");
			if (pass == 3 && cur) vc_assert(released(cur, cur_others), "a timer that has been called is let go, once");
		}
	} else {
		if (vc_k() > 0) {
			vc_assert(nrun == nerased, "a timer whose handler was called is gone, and only such a timer");
			if (cur) { vc_assert(released(cur, cur_others), "a timer that has been called is let go, once"); if (!vc_freed(cur)) vc_assert(cur->called == 1 && !cur->cb && cur->st == ST::Invalid, "a timer whose time has come is called"); }
		}
		vc_assert(!any_due || m.n == 0 || (m.has_lo && last_due <= cnt(m.lo)), "handlers are called in order of due time");
	}
}
static void update_havoc() {
	cur = nullptr; cell = nullptr; looked = vc_k(); MAP& m = M->_runing_timers;
	if (pass <= 3) { vc_assume(vc_k() <= N); m.any_GHOST(vc::count("waiting")); }
	else { m.any_GHOST(vc::count("waiting")); nrun = vc::count("called"); nerased = nrun; any_due = vc::b("any"); last_due = (int64_t)vc::u64("last due"); m.has_lo = vc::b("bound"); m.lo = any_key_(); vc_assume(!any_due || m.n == 0 || (m.has_lo && last_due <= cnt(m.lo))); }
	waiting_n = m.n;
}
static void update_acquire_GHOST(void* l) { acquire_GHOST(l); vc_assert(!taken, "the new timers are taken once"); taken = true; if (vc_split(N == 0)) pass = 3; }
static void update_release_GHOST(void*) { vc_assert(M->_added_timers.empty(), "all new timers are taken"); }
VC_HARNESS(update) {
	start(); vc::on_acquire = update_acquire_GHOST; vc::on_release = update_release_GHOST;
	vc_loop_contract(update_check, update_havoc, "update");
	M->update();
	vc_loop_contract(nullptr, nullptr, nullptr); fin();
	vc_assert(taken, "the new timers are taken once"); vc_assert(vc_bound() || pass >= 3, "every new timer is looked at");
	if (vc_bound()) {
		uint64_t nnew = 0; for (uint64_t i = 0; i < n_all; ++i) { gt* g = all_g[i]; if (vc_freed(g)) { if (g_list[i] == NEW) ++nnew; continue; }
			if (g->list == NEW) { ++nnew; vc_assert(g->called == g->was_stopped && g->inserted == !g->was_stopped, "every new timer is looked at"); vc_assert(released(g, g->others + g->inserted), "holders balance"); }
			else vc_assert(g->called == 0 || (!g->cb && released(g, g->others)), "a timer that has been called is let go, once"); }
		vc_assert(nnew == N, "every new timer is looked at");
	}
	auto i = M->_runing_timers.begin(); vc_assert(i == M->_runing_timers.end() || (now_read && cnt(i->first) > now_v), "every timer whose time has come is called");
	vc_assert(nrun == nerased, "a timer whose handler was called is gone, and only such a timer"); vc_assert(M->_runing_timers.n == waiting_n, "no waiting timer is dropped");
	vc_cover("updated");
}
// ------------------------------------------------------------------ clear
static void clear_check() {
	if (vc_k() == 0) { ++pass; cell = nullptr; cur = nullptr; looked = 0; }
	if (pass == 1 || pass == 3) vc_assert(vc_k() <= N, "every new timer is called"); else vc_assert(vc_k() <= NM, "every waiting timer is called");
	if (pass == 2 && vc_k() == 0) vc_assert(MAP::walked == NM, "every waiting timer is called");
	if (pass == 1) vc_assert(M->_runing_timers.n == NM, "no waiting timer is dropped");
	if (vc_k() == 0) return;
	if (pass != 2) vc_assert(looked == vc_k(), "every new timer is called");
	if (pass <= 2) { vc_assert(cur && cur->idx + 1 == vc_k() && !vc_freed(cur) && cur->called == 1 && !cur->cb, "every timer is called as cancelled"); vc_assert(released(cur, cur_others + 1), "holders balance"); }
	else vc_assert(cur && released(cur, cur_others), "a timer that has been called is let go, once");
}
static void clear_havoc() {
	cur = nullptr; cell = nullptr; looked = vc_k();
	if (pass == 1 || pass == 3) vc_assume(vc_k() <= N); else vc_assume(vc_k() <= NM);
	if (pass == 1) { NM = vc::count("waiting"); M->_runing_timers.any_GHOST(NM); }
	if (pass == 2) M->_runing_timers.any_GHOST(vc::count("waiting again"));
}
static bool clearing; static int n_clear;
static void clear_GHOST(timer_manager* m) { if (clearing) { m->clear(); return; } vc_assert(m == M, "the timers of this manager"); no_locks("handlers run with no lock held"); ++n_clear; }
VC_CONTRACT("librf::timer_manager::clear\\(\\)", clear_GHOST, "C09")
static void clear_acquire_GHOST(void* l) { acquire_GHOST(l); vc_assert(!taken, "the new timers are taken once"); taken = true; }
VC_HARNESS(clear) {
	start(); only_cancel = clearing = true; MAP::walk = true; vc::on_acquire = clear_acquire_GHOST; vc::on_release = update_release_GHOST;
	vc_loop_contract(clear_check, clear_havoc, "clear");
	M->clear();
	vc_loop_contract(nullptr, nullptr, nullptr); fin();
	vc_assert(taken && (vc_bound() || pass >= 2), "every timer is called as cancelled");
	if (vc_bound()) {
		uint64_t nnew = 0; for (uint64_t i = 0; i < n_all; ++i) { gt* g = all_g[i]; if (g_list[i] == NEW) ++nnew; if (!vc_freed(g)) vc_assert(g->called == 1 && !g->cb && (g_list[i] == RUNNING || released(g, g->others)), "a timer that has been called is let go, once"); }
		vc_assert(nnew == N && ncall == n_all && (MAP::walked == NM || (MAP::walked == ~0ull && NM == 0)) && n_all - nnew == NM, "every timer is called as cancelled");
	} vc_cover("cleared"); clearing = false;
}
VC_HARNESS(destroy) {
	hooks(); vc_unguard(); vc::on_acquire = vc::on_release = nullptr; n_clear = 0; clearing = false; M = (timer_manager*)vc_alloc(sizeof(timer_manager), "manager"); ::new ((void*)M) timer_manager();
	M->~timer_manager(); vc_assert(n_clear == 1, "a manager that is destroyed calls its timers as cancelled"); vc_cover("destroyed");
}
VC_HARNESS(empty) {
	start(); vc_unguard(); any_added(); bool e = M->empty(); fin();
	vc_assert(e == (N == 0 && NM == 0), "a manager is empty exactly when no timer waits"); if (e) vc_cover("empty"); else vc_cover("not empty");
}
// ------------------------------------------------------------------ handles
VC_HARNESS(handle) {
	hooks(); uint64_t mark = vc_mark(); { auto mgr = std::make_shared<timer_manager>(); M = mgr.get(); vc::on_acquire = vc::on_release = nullptr; mine = nullptr; keep_made = true; n_made = fn_calls = 0; int live = 0; int64_t due = some("tp"); {
	timer_handler* h = new timer_handler(M->add_handler(key_of(due), fun(&live)));
	vc_assert(n_made == 1 && made_due == due && made_by == M, "one timer is registered");
	TP p = std::move(*kept); delete kept; p->st = vc_choose("added") ? ST::Added : vc_choose("running") ? ST::Runing : ST::Invalid; ST s0 = p->st;
	vc_assert(!h->expired(), "a handle of a timer"); vc_assert(p.use_count() == 1, "a handle does not keep the timer");
	bool gone = vc_choose("timer gone"), mgone = vc_choose("manager gone");
	int how = vc_choose("move") ? 0 : vc_choose("move assign") ? 1 : vc_choose("copy") ? 2 : vc_choose("self assign") ? 3 : 4; timer_handler* h0 = nullptr;
	if (how == 0) { h0 = h; h = new timer_handler(std::move(*h0)); } if (how == 1) { h0 = h; h = new timer_handler(); vc_assert(h->expired() && !h->stop(), "an empty handle"); *h = std::move(*h0); } if (how == 2) { h0 = h; h = new timer_handler(*h0); } if (how == 3) { auto& r = *h; *h = std::move(r); }
	if (how <= 1) vc_assert(h0->expired() && !h0->stop(), "a handle that was moved from stops nothing");
	vc_assert(p->st == s0 && !h->expired(), "moving a handle changes nothing");
	TP keep = p; if (gone) { p.reset(); keep.reset(); vc_assert(h->expired() && live == 0, "a handle does not keep the timer"); } if (mgone) { mgr.reset(); vc_assert(h->_manager.expired(), "a handle does not keep the manager"); }
	if (vc_choose("reset")) { h->reset(); vc_assert(gone || p->st == s0, "giving a handle up stops nothing"); vc_assert(h->expired() && !h->stop(), "an empty handle"); vc_cover("reset"); }
	else { bool r = h->stop(); vc_assert(r == (!gone && !mgone && s0 != ST::Invalid), "a handle stops its timer exactly while it is active"); if (!gone) vc_assert(p->st == (mgone ? s0 : ST::Invalid), "a handle stops its timer exactly while it is active"); vc_assert(h->expired() && !h->stop(), "a handle stops its timer once"); if (r) vc_cover("stopped"); }
	vc_assert(fn_calls == 0, "stopping calls nobody");
	delete h; if (h0) delete h0; } vc_assert(live == 0, "a timer nobody holds releases its handler, once"); }
	vc_assert(vc_leaks(mark) == 0, "handles leave nothing behind");
}
