// C12 / C13 driver: real scheduler, real coroutines; both orders of completing and awaiting, all result types, threads, leak check by the sanitizer
#include "librf/librf.h"
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <random>
#undef go
#define GO (*this_scheduler()) +
using namespace librf;
static void fail(const char* m, long a = 0, long b = 0) { printf("FAIL %s (%ld, %ld)\n", m, a, b); fflush(stdout); _Exit(3); }
static std::atomic<long> live;
struct obj { long v; explicit obj(long x) : v(x) { ++live; } obj(obj&& o) : v(o.v) { o.v = -7; ++live; } obj& operator=(obj&& o) { v = o.v; o.v = -7; return *this; } obj(const obj&) = delete; ~obj() { --live; } };
struct ex { long v; std::shared_ptr<int> p = std::make_shared<int>(1); };
static long cell;
template<class T> struct X;
template<> struct X<long> { template<class A> static void put(A& a, long v) { a.set_value(v); } static future_t<long> ret(long v) { co_return v; } static future_t<long> thr(long v) { throw ex{ v }; co_return 0; } static future_t<long> fwd(future_t<long> f) { co_return co_await f; } static future_t<> get(future_t<long> f, long& o, int& n) { try { o = co_await f; n += 1; } catch (ex& e) { o = e.v; n += 100; } } };
template<> struct X<obj> { template<class A> static void put(A& a, long v) { a.set_value(obj(v)); } static future_t<obj> ret(long v) { co_return obj(v); } static future_t<obj> thr(long v) { throw ex{ v }; co_return obj(0); } static future_t<obj> fwd(future_t<obj> f) { co_return co_await f; } static future_t<> get(future_t<obj> f, long& o, int& n) { try { obj t = co_await f; o = t.v; n += 1; } catch (ex& e) { o = e.v; n += 100; } } };
template<> struct X<long&> { template<class A> static void put(A& a, long v) { cell = v; a.set_value(cell); } static future_t<long&> ret(long v) { cell = v; co_return cell; } static future_t<long&> thr(long v) { throw ex{ v }; co_return cell; } static future_t<long&> fwd(future_t<long&> f) { co_return co_await f; } static future_t<> get(future_t<long&> f, long& o, int& n) { try { long& t = co_await f; if (&t != &cell) fail("reference"); o = t; n += 1; } catch (ex& e) { o = e.v; n += 100; } } };
template<> struct X<void> { template<class A> static void put(A& a, long v) { cell = v; a.set_value(); } static future_t<> ret(long v) { cell = v; co_return; } static future_t<> thr(long v) { throw ex{ v }; co_return; } static future_t<> fwd(future_t<> f) { co_await f; } static future_t<> get(future_t<> f, long& o, int& n) { try { co_await f; o = cell; n += 1; } catch (ex& e) { o = e.v; n += 100; } } };
static void pump(int k = 30) { for (int i = 0; i < k; ++i) this_scheduler()->run_one_batch(); }
template<class T> static void one(std::mt19937& r) {
	long v = 1 + r() % 1000, o = -1; int n = 0; bool e = r() % 2; int depth = r() % 4;
	switch (r() % 4) {
	case 0: case 1: { // hand made
		awaitable_t<T> a; auto f = a.get_future(); bool early = r() % 2; int cp = r() % 3;
		auto done = [&] { awaitable_t<T> b(a), c; if (cp == 1) { c = b; b = awaitable_t<T>(); } if (cp == 2) { c = std::move(b); } awaitable_t<T>& d = cp ? c : a;
			if (!e) X<T>::put(d, v); else if (r() % 2) d.throw_exception(ex{ v }); else d.set_exception(std::make_exception_ptr(ex{ v })); };
		if (early) done();
		for (int i = 0; i < depth; ++i) f = X<T>::fwd(std::move(f));
		GO X<T>::get(f, o, n);
		f = awaitable_t<T>().get_future();
		if (!early) { pump(); if (n) fail("resumed before completion", n); done(); }
		pump(); if (n != (e ? 100 : 1)) fail("awaiting task resumed exactly once with the result", n, e); if (o != v) fail("result", o, v);
		break; }
	case 2: { auto f = e ? X<T>::thr(v) : X<T>::ret(v); for (int i = 0; i < depth; ++i) f = X<T>::fwd(std::move(f)); GO X<T>::get(std::move(f), o, n); pump(); if (n != (e ? 100 : 1)) fail("coroutine result once", n, e); if (o != v) fail("coroutine result", o, v); break; }
	case 3: { // another thread completes
		awaitable_t<T> a; auto f = a.get_future(); for (int i = 0; i < depth; ++i) f = X<T>::fwd(std::move(f)); GO X<T>::get(std::move(f), o, n);
		int d = r() % 200; std::thread t([&, a = std::move(a)]() mutable { for (volatile int i = 0; i < d; ++i); if (e) a.throw_exception(ex{ v }); else X<T>::put(a, v); });
		for (int i = 0; i < 2000000 && !n; ++i) this_scheduler()->run_one_batch();
		t.join(); pump(); if (n != (e ? 100 : 1)) fail("awaiting task resumed exactly once across threads", n, e); if (o != v) fail("result across threads", o, v);
		break; }
	}
}
template<class T> struct late_t { awaitable_t<T>& a; future_t<T> f; int mode; long v; // completed between the test of readiness and the suspension
	bool await_ready() { return f.await_ready(); }
	template<class P> requires(traits::is_promise_v<P>) void await_suspend(coroutine_handle<P> h) { if (mode == 0) a.throw_exception(ex{ v }); else if (mode == 1) a.set_exception(std::make_exception_ptr(ex{ v })); else X<T>::put(a, v); f.await_suspend(h); }
	decltype(auto) await_resume() { return f.await_resume(); } };
static long num(long x) { return x; }
static long num(const obj& x) { return x.v; }
template<class T> static void special() {
	for (int mode = 0; mode < 3; ++mode) { // late completion
		long o = -1; int n = 0;
		GO [&, mode]() -> future_t<> { awaitable_t<T> a; try { late_t<T> l{ a, a.get_future(), mode, 7 }; if constexpr (std::is_void_v<T>) { co_await l; o = cell; } else o = num(co_await l); n += 1; } catch (const ex& e) { o = e.v; n += 100; } };
		pump(); if (n != (mode < 2 ? 100 : 1) || o != 7) fail("completion between await_ready and await_suspend", n, o);
	}
	for (int first = 0; first < 2; ++first) for (int second = 0; second < 2; ++second) { // the last result counts
		counted_ptr<state_t<T>> st(state_future_t::_Alloc_state<state_t<T>>(true)); long o = -1; int n = 0;
		auto put = [&](bool e, long v) { if (e) st->throw_exception(ex{ v }); else X<T>::put(*st, v); };
		put(first, 3); if (std::is_void_v<T> && first) continue; put(second, 4);
		try { if constexpr (std::is_void_v<T>) { st->future_await_resume(); o = 4; } else o = num(st->future_await_resume()); n = 1; } catch (const ex& e) { o = e.v; n = 100; }
		if (n != (second ? 100 : 1) || o != 4) fail("a result set over an earlier one", n, o);
	}
	for (int k = 0; k < 2; ++k) { // nobody takes the result: the leak check and the counter see it
		awaitable_t<T> a; auto f = a.get_future(); if (k) a.throw_exception(ex{ 5 }); else X<T>::put(a, 5);
		if (k) GO X<T>::thr(6); else GO X<T>::ret(6);
		pump();
	}
	if (live) fail("an unread value is destroyed with its state", live);
	{ // holders let go at once
		using H = counted_ptr<state_t<obj>>; auto mk = [] { H h(state_future_t::_Alloc_state<state_t<obj>>(true)); h->set_value(obj(1)); return h; };
		H a = mk(), b = mk(); a = std::move(b); if (live != 1) fail("move assignment releases what it replaces", live); if (b.get()) fail("moved from"); H c = a; b = c; c = nullptr; a = mk(); if (live != 2) fail("copy assignment", live); b.reset(); if (live != 1) fail("reset", live); std::swap(a, b); a = b; if (live != 1) fail("swap", live); a = a; b = H(); if (live != 1) fail("self assignment", live); a = nullptr; if (live) fail("last holder", live);
	}
}
int main(int argc, char** argv) {
	std::mt19937 r(argc > 1 ? atoi(argv[1]) : 1); int rounds = argc > 2 ? atoi(argv[2]) : 1;
	local_scheduler_t ls;
	special<long>(); special<obj>(); special<long&>(); special<void>();
	for (int i = 0; i < 4000 * rounds; ++i) { one<long>(r); one<obj>(r); one<long&>(r); one<void>(r); if (live) fail("values destroyed once", live); }
	if (!this_scheduler()->empty()) fail("all tasks retired");
	puts("ok"); return 0;
}
