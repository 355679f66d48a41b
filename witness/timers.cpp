// Concrete replay of C09 / C21 under a clock of our own: random histories of timers and sleeping tasks against a reference model.
#include "librf/librf.h"
#include <random>
#include <cstdio>
#include <unistd.h>
#undef go
#define GO (*this_scheduler()) +
using namespace librf; using namespace std::chrono_literals;
static int64_t clock_ns = 1000000000000ll;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(clock_ns)); } } } }
static void fail(const char* w, long a = 0, long b = 0) { printf("FAIL: %s (%ld, %ld)\n", w, a, b); fflush(stdout); _exit(1); }
using CK = std::chrono::system_clock; static CK::time_point at(int64_t ns) { return CK::time_point(CK::duration(ns)); }
static int live; struct D { int* p = new int(7); D() { ++live; } D(const D& o) : p(new int(*o.p)) { ++live; } D(D&& o) : p(new int(*o.p)) { ++live; } ~D() { if (!p) fail("destroyed twice"); delete p; p = nullptr; --live; } };
struct T { int64_t due; bool stopped = false, active = true, seen = false; int called = 0; bool arg = false; timer_manager::timer_target_ptr p; timer_handler h; bool by_handle = false; int action = 0, other = 0; };
struct world {
	std::shared_ptr<timer_manager> m = std::make_shared<timer_manager>(); std::vector<std::unique_ptr<T>> ts; std::mt19937& r;
	bool in_update = false, in_clear = false, dying = false; int64_t last_due = INT64_MIN; int64_t now_at = 0;
	world(std::mt19937& r_) : r(r_) {}
	void add(int64_t dt, int how) {
		ts.push_back(std::make_unique<T>()); int id = (int)ts.size() - 1; T& t = *ts.back(); t.due = clock_ns + dt; t.action = r() % 12; t.other = r() % (id + 3);
		auto f = [this, id, d = D()](bool c) { called(id, c); if (*d.p != 7) fail("the function object of a running handler is gone"); };
		switch (how) {
		case 0: t.p = m->add(at(t.due), f); break;
		case 1: t.p = m->add(CK::duration(dt), std::move(f)); break;
		case 2: t.h = m->add_handler(at(t.due), f); t.by_handle = true; break;
		case 3: t.h = m->add_handler(CK::duration(dt), f); t.by_handle = true; break;
		case 4: { int64_t ms = dt / 1000000; t.due = clock_ns + ms * 1000000; t.p = m->add(std::chrono::milliseconds(ms), f); break; }
		default: { int64_t s = (clock_ns + dt) / 1000000000; t.due = s * 1000000000; t.p = m->add(std::chrono::time_point<CK, std::chrono::seconds>(std::chrono::seconds(s)), f); break; }
		}
		if (t.called) fail("a handler is called by add");
	}
	void called(int id, bool c) {
		T& t = *ts[id]; if (t.called) fail("a handler is called twice", id); t.called = 1; t.arg = c;
		if (!in_update && !in_clear) fail("a handler is called outside of update and clear", id);
		if (t.stopped && !c) fail("a stopped timer fires as elapsed", id);
		if (!t.stopped && !in_clear && c) fail("a timer is cancelled that nobody stopped", id);
		if (in_clear && !c) fail("a cleared timer fires as elapsed", id);
		if (!c) { if (t.due > now_at) fail("a timer fires before its time", id); if (t.due < last_due) fail("order of due times", id); last_due = t.due; }
		t.active = false; int64_t keep_due = last_due;
		if (!dying && !t.by_handle && t.p && m->stop(t.p)) fail("a timer can be stopped while its handler runs", id);
		if (!dying) switch (t.action) {
		case 0: add((int64_t)(r() % 5) * 1000000 - 1000000, r() % 4); break;
		case 1: add((int64_t)(r() % 5) * 1000000, r() % 4); add(-1000, r() % 4); break;
		case 2: case 3: if (t.other < (int)ts.size()) stop(t.other); break;
		case 4: if (!in_clear) { clear(); in_update = true; } break;
		case 5: for (size_t i = 0; i < ts.size(); ++i) stop((int)i); break;
		default: break;
		}
		last_due = keep_due;
	}
	void stop(int id) {
		T& t = *ts[id]; bool want = t.active && !t.stopped; bool got;
		if (t.by_handle) { if (t.active && !t.stopped && t.h.expired()) fail("the handle of an active timer has expired", id); got = t.h.stop(); if (!t.h.expired()) fail("a used handle is empty", id); if (t.h.stop()) fail("a handle stops twice"); }
		else got = m->stop(t.p);
		if (got != want) fail("stop of a timer returns", got, want); if (got) t.stopped = true;
	}
	void update() {
		in_update = true; last_due = INT64_MIN; now_at = clock_ns; size_t n = ts.size(); std::vector<char> due(n);
		for (size_t i = 0; i < n; ++i) due[i] = ts[i]->active && (ts[i]->stopped ? !ts[i]->seen || ts[i]->due <= clock_ns : ts[i]->due <= clock_ns);
		m->update(); in_update = false;
		for (size_t i = 0; i < n; ++i) { if (due[i] && !ts[i]->called) fail("a timer whose time has come is not called", (long)i); ts[i]->seen = true; }
	}
	void clear() { in_clear = true; size_t n = ts.size(); m->clear(); in_clear = false; for (size_t i = 0; i < n; ++i) if (!ts[i]->called && !in_cur((int)i)) fail("a cleared timer is not called", (long)i); }
	bool in_cur(int) { return in_update; }   // a timer the running update has already taken is called by that update
	void check() {
		bool any = false; for (auto& t : ts) any |= t->active;
		if (m->empty() != !any) fail("empty()", m->empty(), any);
	}
};
static void timers(std::mt19937& r) {
	{
		world w(r); int ops = 1 + r() % 40;
		for (int i = 0; i < ops; ++i) {
			switch (r() % 9) {
			case 0: case 1: case 2: w.add(((int64_t)(r() % 12) - 3) * 1000000, r() % 5 ? r() % 4 : 4 + r() % 2); break;
			case 3: if (!w.ts.empty()) w.stop(r() % w.ts.size()); break;
			case 4: if (!w.ts.empty()) { T& t = *w.ts[r() % w.ts.size()]; if (t.by_handle) { if (r() & 1) { timer_handler h(std::move(t.h)); if (!t.h.expired() || t.h.stop()) fail("a handle that was moved from stops"); t.h = std::move(h); } else { timer_handler h; h = t.h; h.reset(); if (!h.expired() || h.stop()) fail("an empty handle"); } } } break;
			case 5: clock_ns += (r() % 4) * 1000000; break;
			case 6: case 7: w.update(); break;
			default: if (r() % 6 == 0) w.clear(); break;
			}
			w.check();
		}
		int64_t k = 0; while (!w.m->empty() && ++k < 200) { clock_ns += 5000000; if (r() % 40 == 0) break; w.update(); w.check(); }
		w.in_clear = w.dying = true; auto* h = new timer_handler(); for (auto& t : w.ts) if (t->by_handle && t->active && !t->stopped) { *h = t->h; break; }
		w.m.reset(); for (auto& t : w.ts) if (t->called != 1) fail("a timer is never called", t->called);
		if (h->stop()) fail("a handle stops a timer of a destroyed manager"); delete h;
	}
	if (live) fail("handlers are released", live);
}
// ---- a handler added by another thread while the manager updates
static void threads_(std::mt19937& r) {
	auto m = std::make_shared<timer_manager>(); std::atomic<int> calls{ 0 }; int n = 200;
	std::thread th([&] { for (int i = 0; i < n; ++i) m->add(CK::duration((i % 3) * 1000 - 1000), [&](bool) { ++calls; }); });
	for (int i = 0; i < 100; ++i) m->update();
	th.join(); clock_ns += 10000000; m->update(); m->update(); if (calls != n) fail("timers added by another thread", calls, n);
}
// ---- sleeping tasks
static int64_t cur_batch;
static future_t<> sleeper(int64_t dt, int how, int& woken, int& cancelled, bool again) {
	D d; int64_t due = clock_ns + dt; auto* s = co_await get_current_scheduler();
	for (int k = 0; k <= (again ? 1 : 0); ++k) {
		try {
			due = clock_ns + dt;
			switch (how) {
			case 0: co_await sleep_for(CK::duration(dt)); break;
			case 1: co_await sleep_until(at(due)); break;
			case 2: co_await sleep_for(CK::duration(dt), *s); break;
			case 3: co_await sleep_until(at(due), *s); break;
			case 4: co_await sleep_for_(CK::duration(dt), *s); break;
			case 5: co_await sleep_until_(at(due), *s); break;
			case 6: due = clock_ns + dt / 1000000 * 1000000; co_await std::chrono::milliseconds(dt / 1000000); break;
			default: co_await CK::duration(dt); break;
			}
			if (clock_ns < due) fail("a sleeping task wakes before its time", how);
			if (cur_batch >= due + 2000000) fail("a sleeping task wakes too late", how, (long)(cur_batch - due));
			++woken;
		} catch (const canceled_exception& e) { if (clock_ns >= due + 3000000) fail("a sleep is cancelled after its time"); if (e._error != error_code::timer_canceled) fail("the reason of a cancelled sleep"); ++cancelled; break; }
	}
}
static void sleeps(std::mt19937& r) {
	{ local_scheduler_t my; int n = 1 + r() % 8; std::vector<int> w(n), c(n), want(n); bool cancel = r() % 4 == 0;
	for (int i = 0; i < n; ++i) { bool again = r() & 1; want[i] = again ? 2 : 1; GO sleeper((int64_t)(r() % 30) * 500000 - 1000000, r() % 8, w[i], c[i], again); }
	int64_t prev = clock_ns;
	for (int k = 0; k < 100; ++k) {
		cur_batch = prev; for (int j = 0; j < 6; ++j) this_scheduler()->run_one_batch(); prev = clock_ns; clock_ns += 1000000;
		if (cancel && k == 8) { this_scheduler()->timer()->clear(); for (int j = 0; j < 6; ++j) this_scheduler()->run_one_batch(); for (int i = 0; i < n; ++i) if (w[i] != want[i] && c[i] != 1) fail("a cancelled sleep ends with an exception", w[i], c[i]); }
	}
	for (int i = 0; i < n; ++i) if (c[i] ? (!cancel || w[i] >= want[i] || c[i] != 1) : w[i] != want[i]) fail("a sleeping task wakes once", w[i], c[i]);
	if (!this_scheduler()->empty()) fail("tasks left"); }
	if (live) fail("task resources released", live);
	// not waited for: the timer ends, nobody is woken
	{ local_scheduler_t my; { auto f = sleep_for(CK::duration(1000), *this_scheduler()); } clock_ns += 10000000; for (int j = 0; j < 5; ++j) this_scheduler()->run_one_batch(); if (!this_scheduler()->empty()) fail("a sleep nobody waits for"); }
	// ready already when it is waited for
	{ local_scheduler_t my; int done = 0; GO [&]() -> future_t<> { auto* s = co_await get_current_scheduler(); auto f = sleep_for(CK::duration(1000), *s); clock_ns += 10000000; co_await yield(); co_await yield(); co_await f; ++done; }; for (int j = 0; j < 12; ++j) this_scheduler()->run_one_batch(); if (done != 1) fail("a sleep that is over", done); }
}
int main(int argc, char** argv) {
	int seed = argc > 1 ? atoi(argv[1]) : 1; int n = 3000 * (argc > 2 ? atoi(argv[2]) : 1); std::mt19937 r(seed);
	for (int i = 0; i < n * 4; ++i) timers(r);
	for (int i = 0; i < n / 20 + 1; ++i) threads_(r);
	for (int i = 0; i < n; ++i) sleeps(r);
	puts("ok");
}
