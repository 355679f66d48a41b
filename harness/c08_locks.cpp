// C08: locking several mutexes at once.  The deadlock-free algorithm (without_deadlock_assemble.inl) in both its instances, for threads
// and for coroutines, over any number of locks.  Each function is proved against the contracts of those below it; who holds what is
// followed for one arbitrary lock w of the set, so what is proved of it holds for each.
#include "vc_sched.h"
#include "vc_stdlist.h"
// what private access hides from the library's own detection (see witness/mutex.cpp): no awaiter of a mutex has a state of its own
namespace librf::traits {
	template<> struct has_state<mutex_t::awaiter, void> : std::false_type {}; template<> struct has_state<mutex_t::manual_awaiter, void> : std::false_type {}; template<> struct has_state<mutex_t::timeout_awaiter, void> : std::false_type {}; template<> struct has_state<get_root_state_awaitor, void> : std::false_type {};
}
using namespace librf;
using M = detail::mutex_v2_impl;
static uint64_t N, w; static int held; static void* who;
static void locks() { N = vc::count("locks"); vc_assume(N < (1u << 30)); w = vc::u64("one of them"); vc_assume(w < N); held = 0; vc::nev = 0; }
static void g_block(uint64_t i) { vc_assert(i < N, "a lock of the set"); vc_assert(held == 0, "whoever waits for a lock of the set holds none of the others"); if (i == w) held = 1; }
static bool g_try(uint64_t i) { vc_assert(i < N, "a lock of the set"); if (i != w) return vc_choose("another one is free"); vc_assert(held == 0, "a lock of the set is taken once"); if (!vc_choose("it is free")) return false; held = 1; return true; }
static void g_unlock(uint64_t i) { vc_assert(i < N, "a lock of the set"); if (i == w) { vc_assert(held == 1, "a lock of the set is given back exactly once"); held = 0; } }
// ------------------------------------------------------------------ sets of locks of any number
struct glock { uint64_t idx; void lock() { g_block(idx); } bool try_lock() { return g_try(idx); } void unlock() { g_unlock(idx); } };
struct gimpl { char impl[sizeof(M)]; uint64_t idx; };
static uint64_t idx_of(M* m) { return ((gimpl*)m)->idx; }
static int logging; static M* log_m[8]; static int nlog; static void* log_o;
static bool m_try_GHOST(M* m, void* a) { if (logging) return m->try_lock(a); vc_assert(a == who, "locked for its owner"); return g_try(idx_of(m)); }
static void m_lock_GHOST(M* m, void* a) { if (logging) { m->lock_until_succeed(a); return; } vc_assert(a == who, "locked for its owner"); g_block(idx_of(m)); }
static bool m_unlock_GHOST(M* m, void* a) {
	if (logging == 2) return m->unlock(a);
	if (logging) { vc_assert(a == log_o, "unlocked for its owner"); vc_assert(nlog < 8, "bounded"); log_m[nlog++] = m; return vc::b("owned"); }
	vc_assert(a == who, "unlocked for its owner"); g_unlock(idx_of(m)); return true;
}
VC_CONTRACT("librf::detail::mutex_v2_impl::try_lock\\(void\\*\\)", m_try_GHOST, "C06")
VC_CONTRACT("librf::detail::mutex_v2_impl::lock_until_succeed\\(void\\*\\)", m_lock_GHOST, "C06")
VC_CONTRACT("librf::detail::mutex_v2_impl::unlock\\(void\\*\\)", m_unlock_GHOST, "C06")
static void (*on_yield)(); static void yield_thread() { if (on_yield) on_yield(); }
static int any_rand() { return vc_choose("rand") ? 1 : 0; }
VC_CONTRACT("rand", any_rand, "trusted")
VC_CONTRACT("std::this_thread::yield\\(\\)", yield_thread, "trusted")
static void* mk_mutex(uint64_t i, void*) { mutex_t* m = (mutex_t*)vc_alloc(sizeof(mutex_t), "mutex"); gimpl* g = (gimpl*)vc_alloc(sizeof(gimpl), "impl"); g->idx = i; m->_mutex._M_ptr = (M*)g; m->_mutex._M_refcount._M_pi = nullptr; return m; }
static void* mk_glock(uint64_t i, void*) { glock* g = (glock*)vc_alloc(sizeof(glock), "lock"); g->idx = i; return g; }
static void* mk_ref(uint64_t i, void* u) { void** c = (void**)vc_alloc(8, "reference"); *c = mk_glock(i, u); return c; }
static void* arr;
template<class T> static void any_vector(std::vector<T>& v, void* (*mk)(uint64_t, void*)) { arr = vc_lazy_array(N, sizeof(T), mk, nullptr, "set"); v._M_impl._M_start = (T*)arr; v._M_impl._M_finish = v._M_impl._M_end_of_storage = (T*)arr + N; }
// destruction of the vector of mutexes: gives up the references only
static void vec_dtor_GHOST(std::vector<mutex_t>* v) { if (arr && (void*)v->_M_impl._M_start == arr) return; v->~vector(); }
VC_CONTRACT("std::vector<librf::mutex_t, std::allocator<librf::mutex_t>\\s*>::~vector\\(\\)", vec_dtor_GHOST, "trusted")
using LA1 = detail::_MutexAddressAssembleT; using LV = std::vector<std::reference_wrapper<glock>>; using LA2 = detail::_LockVectorAssembleT<std::reference_wrapper<glock>, LV>; using GV = std::vector<glock>; using LA3 = detail::_LockVectorAssembleT<glock, GV>; using LA4 = mutex_t::_MutexAwaitAssembleT;
static LV* lv; static GV* gv;
template<class LA> static LA* any_set() {
	locks(); who = vc::any_scheduler("owner");
	if constexpr (std::is_same_v<LA, LA1> || std::is_same_v<LA, LA4>) { LA* a = new LA(who); any_vector(a->_mutex, mk_mutex); return a; }
	else if constexpr (std::is_same_v<LA, LA2>) { lv = new LV; any_vector(*lv, mk_ref); return new LA2(*lv); }
	else { gv = new GV; any_vector(*gv, mk_glock); return new LA3(*gv); }
}
// ------------------------------------------------------------------ the contracts of the algorithm, from the bottom up
using LI = detail::scoped_lock_range_lock_impl; using AI = detail::mutex_lock_await_lock_impl;
enum { NONE, UNLOCK, TRY, ATTEMPT, SMALL, TWO, MANY, RANGE }; static int proving; static bool is(int p) { if (proving != p) return false; proving = NONE; return true; }
static int cf, cl, ch, h0;
static bool in(int f, int l) { return (int64_t)w >= f && (int64_t)w < l; }
static void c_unlock(int f, int l) { vc_assert(0 <= f && f <= l && (uint64_t)l <= N, "a range of the set"); if (in(f, l)) { vc_assert(held == 1, "a lock of the set is given back exactly once"); held = 0; } }
static int c_try(int f, int l) {
	vc_assert(0 <= f && f <= l && (uint64_t)l <= N, "a range of the set"); if (in(f, l)) vc_assert(held == 0, "a lock of the set is taken once");
	if (vc_choose("all are free")) { if (in(f, l)) held = 1; return -1; }
	int r = (int)vc::u32("the one that is not free"); vc_assume(r >= f && r < l); return r;
}
static int last;
static int c_attempt(int h) {
	vc_assert(h >= 0 && (uint64_t)h < N, "a lock of the set"); vc_assert(held == 0, "an attempt starts with none of the locks");
	if (vc_choose("all taken")) { held = 1; last = -1; return -1; }
	int r = (int)vc::u32("the one that is not free"); vc_assume(r >= 0 && (uint64_t)r < N); last = r; return r;
}
static bool c_small(int a, int b) { vc_assert(N == 2 && ((a == 0 && b == 1) || (a == 1 && b == 0)), "the two locks of the set"); vc_assert(held == 0, "an attempt starts with none of the locks"); if (vc_choose("both taken")) { held = 1; return false; } return true; }
static void c_two() { vc_assert(N == 2, "a set of two"); vc_assert(held == 0, "locking starts with none of the locks"); held = 1; }
static void c_many() { vc_assert(N >= 3, "a set of three or more"); vc_assert(held == 0, "locking starts with none of the locks"); held = 1; }
template<class LA> static void range_api(LA* la);
template<class LA> static void c_range(LA* la) { if (logging) { range_api(la); return; } vc_assert(held == 0, "locking starts with none of the locks"); held = 1; }
template<class LA> static void s_unlock_GHOST(int f, int l, LA& a) { if (logging == 2 || is(UNLOCK)) LI::_Unlock_locks(f, l, a); else c_unlock(f, l); }
template<class LA> static int s_try_GHOST(int f, int l, LA& a) { if (logging == 2 || is(TRY)) return LI::_Try_lock_range(f, l, a); return c_try(f, l); }
template<class LA> static int s_attempt_GHOST(int h, LA& a) { if (logging == 2 || is(ATTEMPT)) return LI::_Lock_attempt(h, a); return c_attempt(h); }
template<class LA> static bool s_small_GHOST(LA& a, int x, int y) { if (logging == 2 || is(SMALL)) return LI::_Lock_attempt_small2(a, x, y); return c_small(x, y); }
template<class LA> static void s_two_GHOST(LA& a) { if (logging == 2 || is(TWO)) LI::_Lock_nonmember2(a); else c_two(); }
template<class LA> static void s_many_GHOST(LA& a) { if (logging == 2 || is(MANY)) LI::_Lock_nonmember3(a); else c_many(); }
template<class LA> static void s_range_GHOST(LA& a) { if (logging == 2 || is(RANGE)) LI::_Lock_range(a); else c_range(&a); }
#define P "(.* )?librf::detail::scoped_lock_range_lock_impl::"
#define SYNC(la, name) \
	VC_CONTRACT(P "_Unlock_locks<" name ">\\(.*", s_unlock_GHOST<la>, "C08") VC_CONTRACT(P "_Try_lock_range<" name ">\\(.*", s_try_GHOST<la>, "C08") VC_CONTRACT(P "_Lock_attempt<" name ">\\(.*", s_attempt_GHOST<la>, "C08") \
	VC_CONTRACT(P "_Lock_attempt_small2<" name ">\\(.*", s_small_GHOST<la>, "C08") VC_CONTRACT(P "_Lock_nonmember2<" name ">\\(.*", s_two_GHOST<la>, "C08") VC_CONTRACT(P "_Lock_nonmember3<" name ">\\(.*", s_many_GHOST<la>, "C08") VC_CONTRACT(P "_Lock_range<" name ">\\(.*", s_range_GHOST<la>, "C08")
SYNC(LA1, "librf::detail::_MutexAddressAssembleT") SYNC(LA2, "librf::detail::_LockVectorAssembleT<std::reference_wrapper.*") SYNC(LA3, "librf::detail::_LockVectorAssembleT<glock, .*")
// ---- the coroutine instance: an awaited step has completed when it is awaited; every step is awaited before the next one
static int n_called, n_awaited;
static void step() { vc_assert(n_called == n_awaited, "every step is awaited before the next one"); ++n_called; }
template<class T> static future_t<T> ready_GHOST(T v) { step(); awaitable_t<T> a; future_t<T> f = a.get_future(); a.set_value(v); return f; }
static future_t<> ready_GHOST() { step(); awaitable_t<> a; future_t<> f = a.get_future(); a.set_value(); return f; }
template<class F> static bool f_ready_GHOST(F* f) { if (logging == 2) return f->await_ready(); bool r = f->await_ready(); vc_assert(r, "completed"); ++n_awaited; vc_assert(n_called == n_awaited, "every step is awaited"); return r; }
VC_CONTRACT("librf::future_t<int>::await_ready\\(\\) const", f_ready_GHOST<future_t<int>>, "C12")
VC_CONTRACT("librf::future_t<bool>::await_ready\\(\\) const", f_ready_GHOST<future_t<bool>>, "C12")
VC_CONTRACT("librf::future_t<void>::await_ready\\(\\) const", f_ready_GHOST<future_t<>>, "C12")
static bool aw_lock_GHOST(mutex_t::lock_awaiter* a) { if (logging == 2) return a->await_ready(); vc_assert(n_called == n_awaited, "every step is awaited before the next one"); g_block(idx_of(a->_mutex)); return true; }
static bool aw_try_GHOST(mutex_t::try_awaiter* a) { if (logging == 2) return a->await_ready(); vc_assert(n_called == n_awaited, "every step is awaited before the next one"); if (!g_try(idx_of(a->_mutex))) a->_mutex = nullptr; return true; }
VC_CONTRACT("librf::mutex_t::lock_awaiter::await_ready\\(\\)", aw_lock_GHOST, "C06")
VC_CONTRACT("librf::mutex_t::try_awaiter::await_ready\\(\\)", aw_try_GHOST, "C06")
static future_t<> a_yield_GHOST(const LA4* a) { if (logging == 2) return a->_Yield(); return ready_GHOST(); }
VC_CONTRACT("librf::mutex_t::_MutexAwaitAssembleT::_Yield\\(\\) const", a_yield_GHOST, "C10")
static void a_unlock_GHOST(int f, int l, LA4& a) { if (logging == 2 || is(UNLOCK)) AI::_Unlock_locks(f, l, a); else { vc_assert(n_called == n_awaited, "every step is awaited before the next one"); c_unlock(f, l); } }
static future_t<int> a_try_GHOST(int f, int l, LA4& a) { if (logging == 2 || is(TRY)) return AI::_Try_lock_range(f, l, a); return ready_GHOST<int>(c_try(f, l)); }
static future_t<int> a_attempt_GHOST(int h, LA4& a) { if (logging == 2 || is(ATTEMPT)) return AI::_Lock_attempt(h, a); return ready_GHOST<int>(c_attempt(h)); }
static future_t<bool> a_small_GHOST(LA4& a, int x, int y) { if (logging == 2 || is(SMALL)) return AI::_Lock_attempt_small2(a, x, y); return ready_GHOST<bool>(c_small(x, y)); }
static future_t<> a_two_GHOST(LA4& a) { if (logging == 2 || is(TWO)) return AI::_Lock_nonmember2(a); c_two(); return ready_GHOST(); }
static future_t<> a_many_GHOST(LA4& a) { if (logging == 2 || is(MANY)) return AI::_Lock_nonmember3(a); c_many(); return ready_GHOST(); }
static future_t<> a_range_GHOST(LA4& a) { if (logging == 2 || is(RANGE)) return AI::_Lock_range(a); c_range(&a); return ready_GHOST(); }
#undef P
#define P "(.* )?librf::detail::mutex_lock_await_lock_impl::"
#define L4 "<librf::mutex_t::_MutexAwaitAssembleT>\\([^()]*\\)"
VC_CONTRACT(P "_Unlock_locks" L4, a_unlock_GHOST, "C08") VC_CONTRACT(P "_Try_lock_range" L4, a_try_GHOST, "C08") VC_CONTRACT(P "_Lock_attempt" L4, a_attempt_GHOST, "C08") VC_CONTRACT(P "_Lock_attempt_small2" L4, a_small_GHOST, "C08")
VC_CONTRACT(P "_Lock_nonmember2" L4, a_two_GHOST, "C08") VC_CONTRACT(P "_Lock_nonmember3" L4, a_many_GHOST, "C08") VC_CONTRACT(P "_Lock_range" L4, a_range_GHOST, "C08")
static scheduler_t* sch;
// runs a step to its end; its result, if any
template<class T> static T finish_GHOST(future_t<T> f) {
	sch = vc::any_scheduler("sch"); auto s = f._state; s->set_scheduler(sch); vc_assert(n_called == 0, "a step does not run before it is awaited");
	uint64_t a0 = vc::n_added; s->resume(); vc_assert(s->is_ready() && s->_is_initor == decltype(s->_is_initor)::Final && vc::n_added == a0 + 1, "it runs to its end"); vc_assert(n_called == n_awaited, "every step is awaited");
	if constexpr (std::is_void_v<T>) { s->future_await_resume(); s->resume(); } else { T v = s->future_await_resume(); s->resume(); return v; }
}
static void begin(int p) { proving = p; n_called = n_awaited = 0; logging = 0; }
// ------------------------------------------------------------------ proofs
static void unlock_check() { uint64_t k = vc_k(); vc_assert(k <= (uint64_t)(cl - cf), "each lock of the range once"); vc_assert(held == (in(cf, cf + (int)k) ? 0 : h0), "the locks of the range are given back one after the other"); }
static void unlock_havoc() { uint64_t k = vc_k(); vc_assume(k <= (uint64_t)(cl - cf)); held = in(cf, cf + (int)k) ? 0 : h0; }
static void any_range() { cf = (int)vc::u32("first"); cl = (int)vc::u32("last"); vc_assume(cf >= 0 && cf <= cl && (uint64_t)cl <= N); }
template<class LA> static void p_unlock() {
	LA* a = any_set<LA>(); any_range(); begin(UNLOCK); h0 = in(cf, cl) ? 1 : vc_choose("held") ? 1 : 0; held = h0;
	vc_loop_contract(unlock_check, unlock_havoc, "unlock locks");
	if constexpr (std::is_same_v<LA, LA4>) AI::_Unlock_locks(cf, cl, *a); else LI::_Unlock_locks(cf, cl, *a);
	vc_loop_contract(nullptr, nullptr, "");
	vc_assert(held == (in(cf, cl) ? 0 : h0), "each lock of the range is given back, the others are kept"); if (cf == cl) vc_cover("empty range"); else if (in(cf, cl)) vc_cover("given back"); else vc_cover("kept");
}
static void try_check() { uint64_t k = vc_k(); vc_assert(k <= (uint64_t)(cl - cf), "each lock of the range once"); vc_assert(held == (in(cf, cf + (int)k) ? 1 : h0), "the locks of the range are taken one after the other"); vc_assert(n_called == n_awaited, "every step is awaited"); }
static void try_havoc() { uint64_t k = vc_k(); vc_assume(k <= (uint64_t)(cl - cf)); held = in(cf, cf + (int)k) ? 1 : h0; }
template<class LA> static void p_try() {
	LA* a = any_set<LA>(); any_range(); begin(TRY); h0 = in(cf, cl) ? 0 : vc_choose("held") ? 1 : 0; held = h0; int r;
	vc_loop_contract(try_check, try_havoc, "try lock range");
	if constexpr (std::is_same_v<LA, LA4>) r = finish_GHOST(AI::_Try_lock_range(cf, cl, *a)); else r = LI::_Try_lock_range(cf, cl, *a);
	vc_loop_contract(nullptr, nullptr, "");
	if (r == -1) { vc_cover("all taken"); vc_assert(held == (in(cf, cl) ? 1 : h0), "success: each lock of the range is taken"); }
	else { vc_cover("refused"); vc_assert(r >= cf && r < cl, "refused: says which lock is not free"); vc_assert(held == h0, "refused: none of the range is kept"); }
}
template<class LA> static void p_attempt() {
	LA* a = any_set<LA>(); begin(ATTEMPT); ch = (int)vc::u32("hard lock"); vc_assume(ch >= 0 && (uint64_t)ch < N); held = 0; int r;
	if constexpr (std::is_same_v<LA, LA4>) r = finish_GHOST(AI::_Lock_attempt(ch, *a)); else r = LI::_Lock_attempt(ch, *a);
	if (r == -1) { vc_cover("all taken"); vc_assert(held == 1, "success: every lock is taken"); }
	else { vc_cover("refused"); vc_assert(r >= 0 && (uint64_t)r < N, "refused: says which lock is not free"); vc_assert(held == 0, "refused: no lock is kept"); }
}
template<class LA> static void p_small() {
	LA* a = any_set<LA>(); vc_assume(N == 2); begin(SMALL); held = 0; int x = vc_choose("second first"); bool r;
	if constexpr (std::is_same_v<LA, LA4>) r = finish_GHOST(AI::_Lock_attempt_small2(*a, x, 1 - x)); else r = LI::_Lock_attempt_small2(*a, x, 1 - x);
	vc_assert(held == (r ? 0 : 1), "both locks or none"); if (r) vc_cover("again"); else vc_cover("both");
}
static void two_check() { vc_assert(held == 0, "a new attempt starts with none of the locks"); vc_assert(n_called == n_awaited, "every step is awaited"); }
static void two_havoc() { held = 0; n_called = n_awaited = (int)vc::u32("steps"); }
template<class LA> static void p_two() {
	LA* a = any_set<LA>(); vc_assume(N == 2); begin(TWO); held = 0;
	vc_loop_contract(two_check, two_havoc, "two locks");
	if constexpr (std::is_same_v<LA, LA4>) finish_GHOST(AI::_Lock_nonmember2(*a)); else LI::_Lock_nonmember2(*a);
	vc_loop_contract(nullptr, nullptr, ""); vc_assert(held == 1, "both locks are taken"); vc_cover("both");
}
static void many_check() { vc_assert(last >= -1 && last < (int)N, "a lock of the set"); vc_assert(held == (last == -1 ? 1 : 0), "a new attempt starts with none of the locks"); vc_assert(n_called == n_awaited, "every step is awaited"); }
static void many_havoc() { last = (int)vc::u32("last result"); vc_assume(last >= -1 && last < (int)N); held = last == -1 ? 1 : 0; n_called = n_awaited = (int)vc::u32("steps"); }
template<class LA> static void p_many() {
	LA* a = any_set<LA>(); vc_assume(N >= 3); begin(MANY); held = 0; last = 0;
	vc_loop_contract(many_check, many_havoc, "three or more locks"); vc_loop_eq(&last, 4); vc_loop_ne(-1u);
	if constexpr (std::is_same_v<LA, LA4>) finish_GHOST(AI::_Lock_nonmember3(*a)); else LI::_Lock_nonmember3(*a);
	vc_loop_contract(nullptr, nullptr, ""); vc_assert(held == 1, "every lock is taken"); vc_cover("all");
}
template<class LA> static void p_range() {
	LA* a = any_set<LA>(); begin(RANGE); held = 0;
	if constexpr (std::is_same_v<LA, LA4>) finish_GHOST(AI::_Lock_range(*a)); else LI::_Lock_range(*a);
	vc_assert(held == 1, "every lock of the set is taken"); if (N == 1) vc_cover("one"); else if (N == 2) vc_cover("two"); else vc_cover("more");
}
template<class LA> static void p_empty() {
	locks(); N = 0; who = vc::any_scheduler("owner"); begin(RANGE); LV v; GV g;
	if constexpr (std::is_same_v<LA, LA4>) { LA4 a(who); finish_GHOST(AI::_Lock_range(a)); } else if constexpr (std::is_same_v<LA, LA1>) { LA1 a(who); LI::_Lock_range(a); } else if constexpr (std::is_same_v<LA, LA2>) { LA2 a(v); LI::_Lock_range(a); } else { LA3 a(g); LI::_Lock_range(a); }
	vc_cover("empty set");
}
#define ALGO(n, LA) VC_HARNESS(n##_unlock) { p_unlock<LA>(); } VC_HARNESS(n##_try) { p_try<LA>(); } VC_HARNESS(n##_attempt) { p_attempt<LA>(); } VC_HARNESS(n##_small) { p_small<LA>(); } VC_HARNESS(n##_two) { p_two<LA>(); } VC_HARNESS(n##_many) { p_many<LA>(); } VC_HARNESS(n##_range) { p_range<LA>(); } VC_HARNESS(n##_empty) { p_empty<LA>(); }
ALGO(thread, LA1) ALGO(refs, LA2) ALGO(vec, LA3) ALGO(task, LA4)
// ------------------------------------------------------------------ the operations on a fixed number of mutexes
static M* exp_m[4]; static int nexp, nranges;
template<class LA> static void range_api(LA* la) {
	if constexpr (std::is_same_v<LA, LA1> || std::is_same_v<LA, LA4>) {
		vc_assert((int)la->_mutex.size() == nexp, "each of the mutexes, and no other, is locked");
		for (int i = 0; i < nexp; ++i) { int c = 0; for (int k = 0; k < nexp; ++k) if (la->_mutex[k]._mutex.get() == exp_m[i]) ++c; vc_assert(c == 1, "each of the mutexes, and no other, is locked"); }
		if constexpr (std::is_same_v<LA, LA1>) vc_assert(la->_Address == log_o, "locked for its owner"); else vc_assert(la->_owner == log_o, "locked for its owner");
		++nranges; vc_assert(nranges == 1 && nlog == 0, "locked once");
	} else vc_assert(false, "a set of mutexes");
}
static void expect(mutex_t& a) { exp_m[nexp++] = a._mutex.get(); }
static void start_log(void* o) { logging = 1; nlog = nexp = nranges = 0; arr = nullptr; log_o = o; n_called = n_awaited = 0; proving = NONE; }
static void none_back() { vc_assert(nlog == 0, "none is given back while the set is held"); }
static void all_back() { vc_assert(nlog == nexp, "each is given back exactly once"); for (int i = 0; i < nexp; ++i) { int c = 0; for (int k = 0; k < nexp; ++k) if (log_m[k] == exp_m[i]) ++c; vc_assert(c == 1, "each is given back exactly once"); } }
template<class G> static void guard_ends(G g) {
	vc_assert(nranges == 1, "the set is locked"); none_back();
	if (vc_choose("unlocked by hand")) { g.unlock(); all_back(); if (vc_choose("twice")) g.unlock(); vc_cover("unlocked"); return; }
	if (vc_choose("moved")) { { G h(std::move(g)); none_back(); if (vc_choose("the old guard is used again")) g.unlock(); none_back(); } all_back(); vc_cover("moved"); return; }
	if (vc_choose("takes the place of an empty guard")) { { G h(std::adopt_lock, vc_choose("without owner") ? nullptr : log_o); h = std::move(g); none_back(); } all_back(); vc_cover("moved into another"); return; }
	if (vc_choose("replaced")) { g = G(std::adopt_lock, log_o); all_back(); vc_cover("replaced"); return; }
	if (vc_choose("assigned to itself")) { G& h = g; g = std::move(h); none_back(); }
	vc_cover("ended");
}
VC_HARNESS(api_lock_two) { mutex_t a, b; void* o = vc::any_scheduler("owner"); start_log(o); expect(a); expect(b); guard_ends(mutex_t::lock(o, a, b)); all_back(); vc_assert(nranges == 1, "locked once"); }
VC_HARNESS(api_lock_four) { mutex_t a, b, c, d; void* o = vc::any_scheduler("owner"); start_log(o); expect(a); expect(b); expect(c); expect(d); guard_ends(mutex_t::lock(o, a, b, c, d)); all_back(); vc_assert(nranges == 1, "locked once"); }
VC_HARNESS(api_lock_by_hand) { mutex_t a, b, c; void* o = vc::any_scheduler("owner"); start_log(o); expect(a); expect(b); expect(c); mutex_t::lock(adopt_manual_unlock, o, a, b, c); vc_assert(nranges == 1, "locked"); none_back(); mutex_t::unlock(o, c, a, b); all_back(); vc_cover("by hand"); }
VC_HARNESS(task_lock_two) { mutex_t a, b; auto f = mutex_t::lock(a, b); start_log(f._state.get()); expect(a); expect(b); guard_ends(finish_GHOST(std::move(f))); all_back(); vc_assert(nranges == 1, "locked once"); }
VC_HARNESS(task_lock_four) { mutex_t a, b, c, d; auto f = mutex_t::lock(a, b, c, d); start_log(f._state.get()); expect(a); expect(b); expect(c); expect(d); guard_ends(finish_GHOST(std::move(f))); all_back(); vc_assert(nranges == 1, "locked once"); }
VC_HARNESS(task_lock_by_hand) { mutex_t a, b, c; auto f = mutex_t::lock(adopt_manual_unlock, a, b, c); start_log(f._state.get()); expect(a); expect(b); expect(c); finish_GHOST(std::move(f)); vc_assert(nranges == 1, "locked"); none_back(); vc_cover("by hand"); }
VC_HARNESS(task_unlock_by_hand) { mutex_t a, b, c; auto f = mutex_t::unlock(a, b, c); start_log(f._state.get()); expect(a); expect(b); expect(c); finish_GHOST(std::move(f)); all_back(); vc_cover("by hand"); }
// ------------------------------------------------------------------ guards over any number of mutexes
using G2 = batch_unlock_t<mutex_t, mutex_t>;
static void guard_check() { uint64_t k = vc_k(); vc_assert(k <= N, "each lock once"); vc_assert(held == (w < k ? 0 : 1), "the locks are given back one after the other"); }
static void guard_havoc() { uint64_t k = vc_k(); vc_assume(k <= N); held = w < k ? 0 : 1; }
static void kept() { vc_assert(held == 1, "kept"); }
static void back() { vc_assert(held == 0, "each lock is given back"); }
template<class F> static void guarded(F body) {
	locks(); begin(NONE); who = vc::any_scheduler("owner"); held = 1; vc_loop_contract(guard_check, guard_havoc, "guard");
	{ G2 g(std::adopt_lock, who); any_vector(g._MAA._mutex, mk_mutex); body(g); }
	back();
}
VC_HARNESS(guard_end) { guarded([](G2&) { kept(); vc_cover("end"); }); }
VC_HARNESS(guard_unlock) { guarded([](G2& g) { kept(); g.unlock(); back(); if (vc_choose("twice")) g.unlock(); back(); vc_cover("unlock"); }); }
VC_HARNESS(guard_move) { guarded([](G2& g) { { G2 h(std::move(g)); kept(); g.unlock(); kept(); } back(); vc_cover("moved"); }); }
VC_HARNESS(guard_into) { guarded([](G2& g) { { G2 h(std::adopt_lock, vc_choose("no owner") ? nullptr : who); h = std::move(g); kept(); } back(); vc_cover("moved into another"); }); }
VC_HARNESS(guard_replaced) { guarded([](G2& g) { kept(); g = G2(std::adopt_lock, vc_choose("no owner") ? nullptr : who); back(); vc_cover("replaced"); }); }
VC_HARNESS(guard_itself) { guarded([](G2& g) { G2& h = g; g = std::move(h); kept(); vc_cover("assigned to itself"); }); }
// ------------------------------------------------------------------ whole runs: everything compiled, a few mutexes, any part of them held by someone else at first
static counted_ptr<state_base_t> rq[64]; static int rq_h, rq_t; static task_t* registry[4]; static int n_reg, n_retired;
static void q_add_GHOST(scheduler_t* s, state_base_t* b) { vc_assert(s == sch, "a task stays on its scheduler"); vc_assert(rq_t < 64, "bounded"); rq[rq_t++] = b; }
static void q_final_GHOST(scheduler_t* s, state_base_t* b) { vc_assert(s == sch, "a task stays on its scheduler"); for (auto& r : registry) if (r && r->_state.get() == b) { task_t* t = r; r = nullptr; ++n_retired; delete t; } }
static void run_GHOST() { while (rq_h < rq_t) { counted_ptr<state_base_t> s(std::move(rq[rq_h++])); s->resume(); } }
static task_t* new_task(scheduler_t* s, task_t* t) { vc_assert(s == sch && n_reg < 4, "bounded"); registry[n_reg++] = t; t->_state->set_scheduler(s); if (t->_state->has_handler()) q_add_GHOST(s, t->_state.get()); return t; }
VC_CONTRACT("librf::scheduler_t::new_task\\(librf::task_t\\*\\)", new_task, "C10")
static mutex_t* mx[3]; static int n_mx, n_in, n_out; static bool theirs[3]; static void* other; static int how_;
static void waits() { for (int i = 0; i < n_mx; ++i) if (!theirs[i]) vc_assert(!mx[i]->is_locked(), "whoever waits for one of the set holds none of the others"); }
static void inside() { for (int i = 0; i < n_mx; ++i) { vc_assert(!theirs[i] && mx[i]->is_locked(), "it completes when every one is owned"); vc_assert(!mx[i]->try_lock(other), "it completes when every one is owned"); } ++n_in; }
static void outside() { for (int i = 0; i < n_mx; ++i) { vc_assert(!mx[i]->is_locked(), "each is given back"); } ++n_out; }
static future_t<> deeper_lock(mutex_t& a, mutex_t& b, mutex_t& c) { co_await mutex_t::lock(adopt_manual_unlock, a, b, c); }
static future_t<> top(mutex_t a, mutex_t b, mutex_t c) {
	if (how_ == 0) { { auto g = co_await mutex_t::lock(a, b); inside(); } outside(); }
	else if (how_ == 1) { { auto g = co_await mutex_t::lock(a, b, c); inside(); auto h = std::move(g); inside(); h.unlock(); outside(); --n_in, --n_out; } outside(); }
	else if (how_ == 2) { co_await mutex_t::lock(adopt_manual_unlock, a, b); inside(); co_await mutex_t::unlock(b, a); outside(); }
	else if (how_ == 3) { co_await deeper_lock(a, b, c); inside(); co_await mutex_t::unlock(b, a, c); outside(); }
}
static void give() { int i = 0; while (i < n_mx && (!theirs[i] || vc_choose("another one first"))) ++i; if (i == n_mx) vc_end(); theirs[i] = false; mx[i]->unlock(other); }
static bool they_hold() { for (int i = 0; i < n_mx; ++i) if (theirs[i]) return true; return false; }
static void whole(int how, int n) {
	logging = 2; how_ = how; n_mx = n; n_in = n_out = 0; arr = nullptr; rq_h = rq_t = n_reg = n_retired = 0; for (auto& r : registry) r = nullptr; on_yield = nullptr; vc::on_acquire = vc::on_release = nullptr;
	sch = vc::any_scheduler("sch"); other = vc::any_scheduler("other"); vc::on_added = q_add_GHOST; vc::on_final = q_final_GHOST; uint64_t mark = vc_mark();
	{ mutex_t a, b, c; mx[0] = &a; mx[1] = &b; mx[2] = &c;
	for (int i = 0; i < n; ++i) { theirs[i] = vc_choose("held by another"); if (theirs[i]) vc_assert(mx[i]->try_lock(other), "harness"); }
	*sch + top(a, b, c); vc_assert(n_in == 0, "a task does not run before its scheduler runs it"); run_GHOST();
	while (they_hold()) { vc_assert(n_in == 0, "it does not complete before each is owned"); waits(); give(); run_GHOST(); }
	vc_assert(n_in == 1 && n_out == 1, "it completes when all can be had"); vc_assert(n_retired == 1, "the task ends"); }
	vc_assert(vc_leaks(mark) == 0, "nothing is left behind"); vc_cover("whole");
}
VC_HARNESS(whole_two) { whole(0, 2); }
VC_HARNESS(whole_three) { whole(1, 3); }
VC_HARNESS(whole_two_by_hand) { whole(2, 2); }
VC_HARNESS(whole_three_by_hand) { whole(3, 3); }
static void thread_waits() { vc_assert(n_in == 0, "it does not complete before each is owned"); waits(); if (!they_hold()) return; if (vc_choose("given back now")) give(); else vc_end(); }
static void whole_thread(int n, bool by_hand) {
	logging = 2; n_mx = n; n_in = n_out = 0; arr = nullptr; on_yield = thread_waits; vc::on_acquire = vc::on_release = nullptr; who = vc::any_scheduler("owner"); other = vc::any_scheduler("other"); uint64_t mark = vc_mark();
	{ mutex_t a, b, c; mx[0] = &a; mx[1] = &b; mx[2] = &c;
	for (int i = 0; i < n; ++i) { theirs[i] = vc_choose("held by another"); if (theirs[i]) vc_assert(mx[i]->try_lock(other), "harness"); }
	if (by_hand) { if (n == 2) mutex_t::lock(adopt_manual_unlock, who, a, b); else mutex_t::lock(adopt_manual_unlock, who, a, b, c); inside(); if (n == 2) mutex_t::unlock(who, a, b); else mutex_t::unlock(who, c, a, b); }
	else if (n == 2) { auto g = mutex_t::lock(who, a, b); inside(); } else { auto g = mutex_t::lock(who, a, b, c); inside(); auto h = std::move(g); inside(); }
	outside(); vc_assert(!they_hold(), "it completes when each is owned"); }
	vc_assert(vc_leaks(mark) == 0, "nothing is left behind"); vc_cover("whole");
}
VC_HARNESS(whole_thread_two) { whole_thread(2, false); }
VC_HARNESS(whole_thread_three) { whole_thread(3, false); }
VC_HARNESS(whole_thread_two_by_hand) { whole_thread(2, true); }
VC_HARNESS(whole_thread_three_by_hand) { whole_thread(3, true); }
