// Concrete replay of C06 / C07 / C08: random tasks that lock, try, time out, unlock and lock several mutexes at once, against a model.
#include "librf/librf.h"
#include <random>
#include <deque>
#include <set>
#include <cstdio>
#include <unistd.h>
#undef go
#define GO (*this_scheduler()) +
using namespace librf; using namespace std::chrono_literals;
static std::atomic<int64_t> clock_ns{1000000000000ll}; static std::atomic<bool> ticking{false};
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { if (ticking) clock_ns += 1000; return time_point(duration(clock_ns.load())); } } } }
static void fail(const char* w, long a = 0, long b = 0) { printf("FAIL: %s (%ld, %ld)\n", w, a, b); fflush(stdout); _exit(1); }
using CK = std::chrono::system_clock; static CK::time_point at(int64_t ns) { return CK::time_point(CK::duration(ns)); }
static int live; struct D { int* p = new int(7); D() { ++live; } D(const D&) { ++live; } ~D() { delete p; --live; } };
static void pump(int n, std::mt19937* r = nullptr, int64_t dt = 0) { for (int i = 0; i < n; ++i) { if (r) clock_ns += (*r)() % (dt + 1); this_scheduler()->run_one_batch(); } }
// ---------------------------------------------------------------- a model of one mutex
struct W { int id; bool timed; int64_t due; };
struct M { mutex_t m; int owner = -1, depth = 0; bool handed = false; std::deque<W> q; std::set<int> gone; };
static std::vector<M>* ms; static long tick; static int running, finished; static std::mt19937* rg;
static bool model_free(M& k, int id) { return k.owner == id || (k.owner == -1 && !k.handed); }
static void check(M& k) { if (k.m.is_locked() != (k.owner != -1 || k.handed)) fail("a mutex is locked exactly when it has an owner", k.owner, k.handed); }
static void took(M& k, int id, bool now, long t0) {
	if (now) { if (tick != t0) fail("locking a mutex that can be had does not wait", id); }
	else {
		if (!k.handed) fail("a waiting task goes on without being given the mutex", id);
		while (!k.q.empty() && k.q.front().id != id) { auto& w = k.q.front(); if (!w.timed || w.due > clock_ns) fail("a task that waits longer is passed over", w.id, id); k.gone.insert(w.id); k.q.pop_front(); }
		if (k.q.empty()) fail("a task is woken that does not wait", id); k.q.pop_front(); k.handed = false;
	}
	k.owner = id; ++k.depth; ++tick; check(k);
}
static void model_unlock(M& k, int id) {
	if (k.owner != id) fail("model"); if (--k.depth == 0) {
		k.owner = -1; bool must = false; for (auto& w : k.q) if (!w.timed || w.due > clock_ns) must = true;
		k.handed = k.m.is_locked(); if (must && !k.handed) fail("a mutex with waiting tasks becomes free", id); if (k.q.empty() && k.handed) fail("a mutex nobody waits for stays locked", id);
	} else if (!k.m.is_locked()) fail("an inner unlock frees the mutex", id);
}
static future_t<> unlock_one(M& k, int id, unsigned how) {
	if (how % 4 == 0) co_await k.m.unlock(); else if (how % 4 == 1) k.m.unlock(librf_root_state()); else if (how % 4 == 2) mutex_t::unlock((void*)librf_root_state(), k.m); else co_await k.m.unlock();
	model_unlock(k, id);
}
static future_t<bool> lock_one(M& k, int id, unsigned how, int64_t dt) {
	bool now = model_free(k, id); long t0 = tick; bool got = true; int64_t due = clock_ns + dt;
	if (!now) k.q.push_back({ id, how % 3 == 2, due });
	if (how % 3 == 0) co_await k.m.lock(adopt_manual_unlock);
	else if (how % 3 == 1) { if (now && (how & 8)) { if (!co_await k.m.try_lock()) fail("try_lock of a mutex that can be had"); } else co_await k.m.lock(adopt_manual_unlock); }
	else { if (how & 16) got = co_await k.m.try_lock_for(std::chrono::nanoseconds(dt)); else got = co_await k.m.try_lock_until(at(due)); }
	if (got) took(k, id, now, t0);
	else {
		if (now) fail("a mutex that can be had is refused", id); if (clock_ns < due) fail("a timed lock gives up before its time", id);
		if (k.gone.erase(id) == 0) { bool f = false; for (auto i = k.q.begin(); i != k.q.end(); ++i) if (i->id == id) { k.q.erase(i); f = true; break; } if (!f) fail("a timed lock that was given the mutex says no", id); }
		++tick; check(k);
	}
	co_return got;
}
static future_t<> nested(M& k, int id, int n) {   // the same owner in a deeper coroutine
	long t0 = tick; auto g = co_await k.m.lock(); if (tick != t0) fail("its owner locks a mutex again without waiting"); ++k.depth; check(k);
	if (n > 0) { if (rand() & 1) { ++tick; co_await yield(); } co_await nested(k, id, n - 1); }
	if (rand() & 1) { g.unlock(); } else { decltype(g) h; h = std::move(g); if (!k.m.is_locked()) fail("moving a guard unlocks"); }
	model_unlock(k, id); ++tick;
}
static void strangers(M& k) { if (k.owner == -1) return; int x; k.m.unlock((void*)&x); if (!k.m.is_locked()) fail("somebody else unlocks a mutex"); if (k.m.try_lock((void*)&x)) fail("try_lock of a mutex somebody else owns"); }
static future_t<> worker(int id, unsigned seed) {
	std::mt19937 r(seed); D d; ++running;
	for (int s = 0, n = 1 + r() % 4; s < n; ++s) {
		auto& k = (*ms)[r() % ms->size()];
		for (int y = r() % 3; y > 0; --y) { ++tick; co_await yield(); }
		if (r() % 6 == 0) { bool want = model_free(k, id); long t0 = tick; bool b = co_await k.m.try_lock(); if (tick != t0) fail("try_lock waits"); if (b != want) fail("try_lock succeeds exactly when the mutex can be had", b, want); if (!b) { ++tick; continue; } k.owner = id; ++k.depth; }
		else if (!co_await lock_one(k, id, r(), r() % 40)) continue;
		int deep = r() % 3; for (int i = 0; i < deep; ++i) if (!co_await lock_one(k, id, r(), 5)) fail("its owner locks a mutex again");
		strangers(k); if (r() % 3 == 0) { ++tick; co_await nested(k, id, r() % 3); }
		for (int y = r() % 4; y > 0; --y) { ++tick; co_await yield(); if (k.owner != id) fail("two owners", k.owner, id); strangers(k); }
		for (int i = 0; i <= deep; ++i) { ++tick; if (r() & 1) { ++tick; co_await yield(); } co_await unlock_one(k, id, r()); }
	}
	--running; ++finished; ++tick;
}
static void story(std::mt19937& r) {
	std::vector<M> v(1 + r() % 2); ms = &v; int n = 1 + r() % 9; finished = 0; running = 0; tick = 0; rg = &r;
	for (int i = 0; i < n; ++i) GO worker(i, r());
	for (int i = 0; i < 3000 && !this_scheduler()->empty(); ++i) { clock_ns += r() % 9; this_scheduler()->run_one_batch(); }
	if (finished != n) fail("a task waits for ever", finished, n); for (auto& k : v) { if (k.m.is_locked() || k.owner != -1 || !k.q.empty()) fail("a mutex stays locked"); } if (live) fail("task resources released", live);
}
// many waiters, most of them timed out and gone
static void crowd(std::mt19937& r) {
	mutex_t m; int n = 200, no = 0, yes = 0; std::vector<int> order; bool rel = false;
	GO [&]() -> future_t<> { auto g = co_await m.lock(); while (!rel) co_await yield(); }; pump(2); if (!m.is_locked()) fail("locked");
	for (int i = 0; i < n; ++i) GO [&, i, timed = i + 1 < n && r() % 10 != 0]() -> future_t<> { D d; if (timed) { if (co_await m.try_lock_for(5ns)) fail("timed out"); ++no; } else { auto g = co_await m.lock(); order.push_back(i); ++yes; co_await yield(); } };
	pump(2); clock_ns += 10; pump(4); rel = true; pump(2 * n + 50);
	if (no + yes != n || !this_scheduler()->empty()) fail("a task waits for ever", no, yes); for (size_t i = 1; i < order.size(); ++i) if (order[i - 1] >= order[i]) fail("order of waiting"); if (m.is_locked() || live) fail("a mutex stays locked");
}
// a timed waiter and its mutex are decided in the same batch, both orders
static void close_race(std::mt19937& r) {
	mutex_t m; int got = -1; bool first = r() & 1; int64_t due = clock_ns + 10; int w = r() % 3, rest = 0;
	GO [&]() -> future_t<> { co_await m.lock(adopt_manual_unlock); for (int i = 0; i < 6; ++i) co_await yield(); co_await m.unlock(); }; pump(1);
	GO [&]() -> future_t<> { got = co_await m.try_lock_until(at(due)); if (got) co_await m.unlock(); };
	for (int i = 0; i < w; ++i) GO [&]() -> future_t<> { auto g = co_await m.lock(); ++rest; };
	pump(3); if (!first) clock_ns = due; else clock_ns = due - 1; pump(2); pump(1); clock_ns = due + 5; pump(20);
	if (got < 0 || rest != w || m.is_locked() || !this_scheduler()->empty()) fail("a task waits for ever", got, rest); if (!first && got) fail("a timed lock gets the mutex after its time"); if (first && !got) fail("a timed lock that was given the mutex says no");
}
// ---------------------------------------------------------------- C08
static std::vector<int> inside; static int multi_done;
template<size_t N> static future_t<> multi_body(std::vector<mutex_t>& v, std::vector<int> ix, unsigned seed, int how) {
	std::mt19937 r(seed); D d;
	for (int turn = 0; turn < 2; ++turn) {
		auto enter = [&] { for (int i : ix) { if (++inside[i] != 1) fail("two owners", i); if (!v[i].is_locked()) fail("locking several mutexes locks each of them", i); } };
		auto leave = [&] { for (int i : ix) --inside[i]; };
		auto& a = v[ix[0]]; auto& b = v[ix[1]]; auto& c = v[ix[N > 2 ? 2 : 0]]; auto& e = v[ix[N > 3 ? 3 : 0]];
		if (how == 0) {
			if constexpr (N == 2) { auto g = co_await mutex_t::lock(a, b); enter(); for (int y = r() % 3; y > 0; --y) co_await yield(); leave(); if (r() & 1) g.unlock(); }
			if constexpr (N == 3) { auto g = co_await mutex_t::lock(a, b, c); enter(); for (int y = r() % 3; y > 0; --y) co_await yield(); leave(); auto h = std::move(g); if (r() & 1) { g.unlock(); if (!a.is_locked()) fail("a moved guard unlocks"); h.unlock(); } }
			if constexpr (N == 4) { auto g = co_await mutex_t::lock(a, b, c, e); enter(); for (int y = r() % 3; y > 0; --y) co_await yield(); leave(); }
		} else {
			if constexpr (N == 2) co_await mutex_t::lock(adopt_manual_unlock, a, b); if constexpr (N == 3) co_await mutex_t::lock(adopt_manual_unlock, a, b, c); if constexpr (N == 4) co_await mutex_t::lock(adopt_manual_unlock, a, b, c, e);
			enter(); for (int y = r() % 3; y > 0; --y) co_await yield(); leave();
			if (how == 1) { if constexpr (N == 2) co_await mutex_t::unlock(a, b); if constexpr (N == 3) co_await mutex_t::unlock(a, b, c); if constexpr (N == 4) co_await mutex_t::unlock(a, b, c, e); }
			else { void* o = librf_root_state(); if constexpr (N == 2) mutex_t::unlock(o, a, b); if constexpr (N == 3) mutex_t::unlock(o, a, b, c); if constexpr (N == 4) mutex_t::unlock(o, a, b, c, e); }
		}
		co_await yield();
	}
	++multi_done;
}
static void multi(std::mt19937& r) {
	int k = 2 + r() % 4; std::vector<mutex_t> v(k); inside.assign(k, 0); multi_done = 0; int n = 1 + r() % 6;
	for (int i = 0; i < n; ++i) {
		std::vector<int> ix; for (int j = 0; j < k; ++j) ix.push_back(j); std::shuffle(ix.begin(), ix.end(), r); int m = 2 + r() % (std::min(k, 4) - 1); ix.resize(m); int how = r() % 3;
		if (m == 2) GO multi_body<2>(v, ix, r(), how); else if (m == 3) GO multi_body<3>(v, ix, r(), how); else GO multi_body<4>(v, ix, r(), how);
	}
	for (int i = 0; i < 4000 && !this_scheduler()->empty(); ++i) this_scheduler()->run_one_batch();
	if (multi_done != n) fail("locking several mutexes waits for ever", multi_done, n); for (auto& m : v) if (m.is_locked()) fail("a mutex of a set stays locked"); if (live) fail("task resources released", live);
}
// one mutex of the set is held: the others stay free until all can be had
static void all_or_nothing2(std::mt19937& r) {   // the held ones are released one after the other
	int k = 2 + r() % 3; std::vector<mutex_t> v(k); std::vector<int> st(k); int rel = 0; bool got = false, done = false; int nh = 1 + r() % k; std::vector<int> hs; for (int j = 0; j < k; ++j) hs.push_back(j); std::shuffle(hs.begin(), hs.end(), r); hs.resize(nh);
	for (int t = 0; t < nh; ++t) { st[hs[t]] = 1; GO [&, t, h = hs[t]]() -> future_t<> { auto g = co_await v[h].lock(); while (rel <= t) co_await yield(); st[h] = 2; }; }
	pump(2);
	GO [&]() -> future_t<> {
		if (k == 2) { auto g = co_await mutex_t::lock(v[0], v[1]); got = true; for (auto& m : v) if (!m.is_locked()) fail("locking several mutexes locks each of them"); co_await yield(); }
		else if (k == 3) { auto g = co_await mutex_t::lock(v[0], v[1], v[2]); got = true; for (auto& m : v) if (!m.is_locked()) fail("locking several mutexes locks each of them"); co_await yield(); }
		else { auto g = co_await mutex_t::lock(v[0], v[1], v[2], v[3]); got = true; for (auto& m : v) if (!m.is_locked()) fail("locking several mutexes locks each of them"); co_await yield(); } done = true; };
	for (int t = 0; t < nh; ++t) {
		for (int i = r() % 4; i > 0; --i) { pump(40); for (int j = 0; j < k; ++j) if (st[j] == 0 && v[j].is_locked()) fail("while it waits for one mutex of a set a task holds another", j); if (got) fail("a set is locked although one of its mutexes is held"); }
		++rel; pump(1);
	}
	pump(600); if (!done) fail("locking several mutexes waits for ever", k, nh); for (auto& m : v) if (m.is_locked()) fail("a mutex of a set stays locked"); if (!this_scheduler()->empty()) fail("tasks left");
}
static void plain_threads(std::mt19937& r) {   // outside of tasks: threads as owners
	std::vector<mutex_t> v(4); long cnt[4] = {}, want[4] = {}; std::vector<std::thread> th; int T = 2 + r() % 2, N = 60; ticking = true; std::atomic<long> bad{0}; std::mutex mw;
	for (int t = 0; t < T; ++t) th.emplace_back([&, s = r()] {
		std::mt19937 q(s); int me; void* o = &me; long mine[4] = {};
		for (int i = 0; i < N; ++i) {
			int a = q() % 4, b = (a + 1 + q() % 3) % 4, c = 0; while (c == a || c == b) ++c; int e = 6 - a - b - c;
			switch (q() % 7) {
			case 0: v[a].lock(o); ++cnt[a]; ++mine[a]; v[a].unlock(o); break;
			case 1: if (v[a].try_lock(o)) { v[a].lock(o); ++cnt[a]; ++mine[a]; v[a].unlock(o); if (!v[a].is_locked()) ++bad; v[a].unlock(o); } break;
			case 2: if (v[a].try_lock_for(std::chrono::microseconds(q() % 50), o)) { ++cnt[a]; ++mine[a]; v[a].unlock(o); } break;
			case 3: { auto g = mutex_t::lock(o, v[a], v[b]); ++cnt[a]; ++cnt[b]; ++mine[a]; ++mine[b]; if (q() & 1) g.unlock(); break; }
			case 4: mutex_t::lock(adopt_manual_unlock, o, v[a], v[b], v[c]); ++cnt[a]; ++cnt[b]; ++cnt[c]; ++mine[a]; ++mine[b]; ++mine[c]; mutex_t::unlock(o, v[a], v[b], v[c]); break;
			case 5: { auto g = mutex_t::lock(o, v[a], v[b], v[c], v[e]); for (int j = 0; j < 4; ++j) { ++cnt[j]; ++mine[j]; } auto h = std::move(g); break; }
			default: { auto g = mutex_t::lock(o, v[a], v[b], v[c]); ++cnt[a]; ++cnt[b]; ++cnt[c]; ++mine[a]; ++mine[b]; ++mine[c]; auto h = mutex_t::lock(o, v[b], v[a], v[c]); h = std::move(g); if (!v[a].is_locked()) ++bad; }
			}
		}
		mw.lock(); for (int j = 0; j < 4; ++j) want[j] += mine[j]; mw.unlock();
	});
	for (auto& t : th) t.join(); ticking = false;
	for (int j = 0; j < 4; ++j) { if (cnt[j] != want[j]) fail("two owners at a time", j); if (v[j].is_locked()) fail("a mutex stays locked", j); } if (bad) fail("its owner owns a mutex until the last unlock");
}
// tasks of two schedulers on two threads, some with time-outs
static void two_threads(std::mt19937& r) {
	std::vector<mutex_t> v(3); long cnt[3] = {}; std::atomic<long> want[3] = {}; ticking = true; std::vector<std::thread> th;
	for (int t = 0; t < 2; ++t) th.emplace_back([&, s = r()] {
		std::mt19937 q(s); local_scheduler_t ls;
		for (int i = 0; i < 12; ++i) GO [&, s2 = q()]() -> future_t<> { std::mt19937 q(s2); for (int n = 0; n < 6; ++n) {
			int a = q() % 3, b = (a + 1 + q() % 2) % 3;
			switch (q() % 4) {
			case 0: { auto g = co_await v[a].lock(); ++cnt[a]; ++want[a]; if (q() & 1) co_await yield(); break; }
			case 1: if (co_await v[a].try_lock_for(std::chrono::microseconds(q() % 200))) { ++cnt[a]; ++want[a]; if (q() & 1) co_await yield(); co_await v[a].unlock(); } break;
			case 2: { auto g = co_await mutex_t::lock(v[a], v[b]); ++cnt[a]; ++cnt[b]; ++want[a]; ++want[b]; if (q() & 1) co_await yield(); break; }
			default: { auto g = co_await mutex_t::lock(v[0], v[b], v[a]); for (int j : { 0, a, b }) { ++cnt[j]; ++want[j]; } break; }
			} co_await yield(); } };
		this_scheduler()->run_until_notask();
	});
	for (auto& t : th) t.join(); ticking = false; for (int j = 0; j < 3; ++j) { if (cnt[j] != want[j]) fail("two owners at a time", j); if (v[j].is_locked()) fail("a mutex stays locked", j); }
}
static void guards() {
	mutex_t a, b; bool done = false;
	GO [&]() -> future_t<> { auto g = co_await a.lock(); g = co_await b.lock(); if (a.is_locked()) fail("a guard that is assigned to keeps its mutex locked"); if (!b.is_locked()) fail("guard"); { auto h = std::move(g); } if (b.is_locked()) fail("guard");
		auto m = co_await mutex_t::lock(a, b); m.unlock(); if (a.is_locked() || b.is_locked()) fail("unlocking a set releases each"); m = co_await mutex_t::lock(b, a); if (!a.is_locked() || !b.is_locked()) fail("guard of a set"); auto m2 = std::move(m); m = std::move(m2); m.unlock(); m.unlock(); if (a.is_locked() || b.is_locked()) fail("unlocking a set releases each");
		{ auto x = co_await mutex_t::lock(a, b); auto y = co_await mutex_t::lock(a, b); x = std::move(y); y.unlock(); if (!a.is_locked() || !b.is_locked()) fail("releases each once"); } if (a.is_locked() || b.is_locked()) fail("unlocking a set releases each"); done = true; };
	pump(400); if (!done) fail("guards wait for ever");
}
int main(int argc, char** argv) {
	std::mt19937 r(argc > 1 ? atoi(argv[1]) : 1); int rounds = argc > 2 ? atoi(argv[2]) : 1; local_scheduler_t ls; srand(1);
	guards();
	for (int i = 0; i < 3; ++i) crowd(r);
	for (int i = 0; i < 100 * rounds; ++i) close_race(r);
	for (int i = 0; i < 2000 * rounds; ++i) story(r);
	for (int i = 0; i < 400 * rounds; ++i) { multi(r); all_or_nothing2(r); }
	for (int i = 0; i < 20 * rounds; ++i) { plain_threads(r); two_threads(r); }
	puts("ok"); return 0;
}
