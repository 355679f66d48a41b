// Concrete replay of C17 / C18: when_all and when_any over operations completed in random order, before or after they are awaited, here or on other threads.
#include "librf/librf.h"
#include <random>
#include <algorithm>
#include <latch>
#include <list>
#include <cstdio>
#include <unistd.h>
#undef go
#define GO (*this_scheduler()) +
using namespace librf;
static void fail(const char* w, long a = 0, long b = 0) { printf("FAIL: %s (%ld, %ld)\n", w, a, b); fflush(stdout); _exit(1); }
static void pump(int n = 40) { for (int i = 0; i < n; ++i) this_scheduler()->run_one_batch(); }
static int live; struct D { int* v = new int(7); D() { ++live; } D(const D&) { ++live; } D(D&&) { ++live; } ~D() { if (!v || *v != 7) fail("destroyed twice"); delete v; v = nullptr; --live; } void check() const { if (!v || *v != 7) fail("task locals gone"); } };
// ---- operations
struct S { std::vector<awaitable_t<std::string>> a; std::vector<awaitable_t<>> v; std::vector<awaitable_t<bool>> b; std::vector<int> done; int n_done = 0;
	std::vector<future_t<std::string>> fa; std::vector<future_t<>> fv; std::vector<future_t<bool>> fb;
	S(int n) : a(n), v(n), b(n), done(n) { for (int i = 0; i < n; ++i) { fa.push_back(a[i].get_future()); fv.push_back(v[i].get_future()); fb.push_back(b[i].get_future()); } }
	void complete(int i) { if (done[i]) return; done[i] = 1; ++n_done; a[i].set_value(val(i)); v[i].set_value(); b[i].set_value(bit(i)); }
	static std::string val(int i) { return "value of operation " + std::to_string(i); }
	static bool bit(int i) { return (i * 7 + i / 3) & 1; } };
struct C { S* s; int i; int kind; D d; future_t<std::string> operator()() const { auto* t = s; int j = i, k = kind; if (k == 1) co_await yield(); D e; auto x = co_await t->fa[j]; if (k == 2) co_await yield(); e.check(); co_return x; } };
struct CB { S* s; int i; D d; future_t<bool> operator()() const { auto* t = s; int j = i; D e; bool x = co_await t->fb[j]; e.check(); co_return x; } };
struct CV { S* s; int i; D d; future_t<> operator()() const { auto* t = s; int j = i; D e; co_await t->fv[j]; e.check(); } };
struct F { S* s; int i; future_t<std::string> operator()() const { return s->fa[i]; } };
static int ends;
static void all_ok(S& s, int n, const std::vector<std::string>& v) { if ((int)v.size() != n) fail("one result for each operation", v.size(), n); for (int i = 0; i < n; ++i) if (!s.done[i]) fail("completed before an operation", i); else if (v[i] != S::val(i)) fail("result of an operation in its place", i); ++ends; }
static future_t<> all_task(S* s, int n, int kind, future_t<>* gate) {
	D d; auto* sch = librf_current_scheduler();
	switch (kind) {
	case 0: { std::vector<C> c; for (int i = 0; i < n; ++i) c.push_back({ s, i, i % 3 }); auto v = co_await when_all(*sch, c); all_ok(*s, n, v); break; }
	case 1: { std::vector<C> c; for (int i = 0; i < n; ++i) c.push_back({ s, i, i % 3 }); auto v = co_await when_all(c.begin(), c.end()); all_ok(*s, n, v); break; }
	case 2: { std::vector<future_t<std::string>> c; for (int i = 0; i < n; ++i) c.push_back(s->fa[i]); auto f = when_all(*sch, c.data(), c.data() + n); co_await *gate; auto v = co_await f; all_ok(*s, n, v); break; }
	case 3: { std::vector<CB> c; for (int i = 0; i < n; ++i) c.push_back({ s, i }); auto v = co_await when_all(*sch, c); if ((int)v.size() != n) fail("one result for each operation"); for (int i = 0; i < n; ++i) if (!s->done[i] || v[i] != S::bit(i)) fail("result of an operation in its place", i); ++ends; break; }
	case 4: { std::vector<CV> c; for (int i = 0; i < n; ++i) c.push_back({ s, i }); auto v = co_await when_all(c); if ((int)v.size() != n) fail("one result for each operation"); for (int i = 0; i < n; ++i) if (!s->done[i]) fail("completed before an operation", i); ++ends; break; }
	case 5: { std::vector<F> c; for (int i = 0; i < n; ++i) c.push_back({ s, i }); auto v = co_await when_all(c); all_ok(*s, n, v); break; }
	case 6: { if (n < 4) break; auto [a, b, c, e] = co_await when_all(*sch, C{ s, 0, 1 }, CV{ s, 1 }, s->fa[2], CB{ s, 3 }); for (int i = 0; i < 4; ++i) if (!s->done[i]) fail("completed before an operation", i); if (a != S::val(0) || c != S::val(2) || e != S::bit(3)) fail("result of an operation in its place"); ++ends; break; }
	case 7: { if (n < 3) break; auto [a, b, c] = co_await when_all(F{ s, 2 }, C{ s, 1, 2 }, C{ s, 0, 0 }); for (int i = 0; i < 3; ++i) if (!s->done[i]) fail("completed before an operation", i); if (a != S::val(2) || b != S::val(1) || c != S::val(0)) fail("result of an operation in its place"); ++ends; break; }
	case 8: { if (n < 2) break; auto f = when_all(*sch, C{ s, 0, 0 }, CV{ s, 1 }); co_await *gate; auto [a, b] = co_await f; if (!s->done[0] || !s->done[1]) fail("completed before an operation"); if (a != S::val(0)) fail("result of an operation in its place"); ++ends; break; }
	}
	d.check();
}
static void all_(std::mt19937& r) {
	int n = r() % 4 == 0 ? r() % 200 : r() % 6, kind = r() % 9; int need = kind == 6 ? 4 : kind == 7 ? 3 : kind == 8 ? 2 : n; if (need > n) return;
	S s(n); awaitable_t<> gate; future_t<> gf = gate.get_future(); std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; std::shuffle(ord.begin(), ord.end(), r);
	int early = n ? r() % (n + 1) : 0; bool mix = r() & 1; for (int k = 0; mix && k < early; ++k) s.complete(ord[k]);
	ends = 0; GO all_task(&s, n, kind, &gf); if (r() & 1) pump();
	int g = r() % (n + 1); bool gated = kind == 2 || kind == 8, opened = false;
	auto left = [&] { int c = 0; for (int i = 0; i < need; ++i) c += !s.done[i]; return c; };
	for (int k = 0; k < n; ++k) { if (k == g) { gate.set_value(); opened = true; if (r() & 1) pump(); } if (left() && ends) fail("completed before an operation"); s.complete(ord[k]); if (r() % 3) pump(); }
	if (!opened) { pump(); if (gated && ends) fail("not awaited yet"); gate.set_value(); }
	pump(); if (ends != 1) fail("completes once, after its last operation", ends, n); if (live) fail("operations released", live); if (!this_scheduler()->empty()) fail("tasks left");
}
static int any_idx; static bool any_has; static std::string any_val; 
static void any_end(const when_any_pair& p) { any_idx = (int)p.first; any_has = p.second.has_value(); any_val.clear(); if (auto* x = any_cast<std::string>(&p.second)) any_val = *x; else if (auto* b = any_cast<bool>(&p.second)) any_val = *b ? "1" : "0"; ++ends; }
static future_t<> any_task(S* s, int n, int kind, future_t<>* gate) {
	D d; auto* sch = librf_current_scheduler();
	switch (kind) {
	case 0: { std::vector<C> c; for (int i = 0; i < n; ++i) c.push_back({ s, i, 0 }); any_end(co_await when_any(*sch, c)); break; }
	case 1: { std::vector<F> c; for (int i = 0; i < n; ++i) c.push_back({ s, i }); any_end(co_await when_any(c.begin(), c.end())); break; }
	case 2: { std::vector<future_t<std::string>> c; for (int i = 0; i < n; ++i) c.push_back(s->fa[i]); auto f = when_any(*sch, c.data(), c.data() + n); co_await *gate; any_end(co_await f); break; }
	case 3: { std::vector<CV> c; for (int i = 0; i < n; ++i) c.push_back({ s, i }); any_end(co_await when_any(c)); break; }
	case 4: { std::vector<CB> c; for (int i = 0; i < n; ++i) c.push_back({ s, i }); any_end(co_await when_any(*sch, c)); break; }
	case 5: { if (n < 3) break; any_end(co_await when_any(*sch, C{ s, 0, 0 }, CV{ s, 1 }, CB{ s, 2 })); break; }
	case 6: { if (n < 3) break; any_end(co_await when_any(C{ s, 0, 0 }, s->fa[1], CV{ s, 2 })); break; }
	}
	d.check();
}
static void any_(std::mt19937& r) {
	int n = r() % 4 == 0 ? r() % 100 : r() % 6, kind = r() % 7; int need = kind >= 5 ? 3 : n; if (need > n) return;
	{
		S s(n); awaitable_t<> gate; future_t<> gf = gate.get_future(); std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; std::shuffle(ord.begin(), ord.end(), r);
		bool early = need && r() % 4 == 0; int first = -1; std::vector<int> was(n); if (early) { int e = 1 + r() % n; for (int k = 0; k < e; ++k) { s.complete(ord[k]); if (ord[k] < need) { was[ord[k]] = 1; first = ord[k]; } } if (first < 0) early = false; }
		ends = 0; any_idx = -9; GO any_task(&s, n, kind, &gf); pump();
		int g = r() % (n + 1); bool gated = kind == 2, opened = false;
		for (int k = 0; k < n; ++k) {
			if (k == g) { gate.set_value(); opened = true; pump(); }
			if (!gated && need && ends != (first >= 0)) fail("completes when the first operation has completed, and not before", ends, first);
			if (!s.done[ord[k]]) { s.complete(ord[k]); if (first < 0 && ord[k] < need) first = ord[k]; pump(); }
		}
		if (!opened) { pump(); if (gated && ends) fail("not awaited yet"); gate.set_value(); }
		pump(); if (ends != 1) fail("completes once", ends, n);
		if (need == 0) { if (any_idx != -1 || any_has) fail("no operation: an invalid index", any_idx); }
		else {
			if (early ? any_idx < 0 || any_idx >= n || !was[any_idx] : any_idx != first) fail("the index of the first operation", any_idx, first);
			std::string want = S::val(any_idx); bool has = true; if (kind == 3 || (kind == 5 && any_idx == 1) || (kind == 6 && any_idx == 2)) has = false; if (kind == 4 || (kind == 5 && any_idx == 2)) want = S::bit(any_idx) ? "1" : "0";
			if (any_has != has) fail("the result of the first operation", any_idx); if (has && any_val != want) fail("the result of the first operation", any_idx, 1);
		}
	}
	if (live) fail("operations released", live); if (!this_scheduler()->empty()) fail("tasks left");
}
static future_t<> nothing_task() { auto* sch = librf_current_scheduler(); co_await when_all(*sch); co_await when_all(); any_end(co_await when_any(*sch)); if (any_idx != -1 || any_has) fail("no operation: an invalid index"); any_end(co_await when_any()); if (any_idx != -1 || any_has) fail("no operation: an invalid index"); ++ends; }
static void nothing() { ends = 0; GO nothing_task(); pump(); if (ends != 3) fail("with no operation it completes at once", ends); }
// ---- operations that complete on the threads of other schedulers
static scheduler_t* o[3];
struct Hop { int i, k; future_t<int> operator()() const { int a = i, b = k; D* d = nullptr; co_await via(o[b]); if (a % 5 == 0) co_await yield(); co_return a + 1; } };
struct HopB { int i, k; future_t<bool> operator()() const { int a = i, b = k; co_await via(o[b]); co_return S::bit(a); } };
static std::atomic<int> t_ends; static std::atomic<int> t_bad;
static future_t<> hop_all(int n, int m) {
	auto* sch = librf_current_scheduler();
	switch (m) {
	case 0: { std::vector<Hop> h; for (int i = 0; i < n; ++i) h.push_back({ i, i % 3 }); auto v = co_await when_all(*sch, h); for (int i = 0; i < n; ++i) if (v[i] != i + 1) ++t_bad; break; }
	case 1: { std::vector<HopB> h; for (int i = 0; i < n; ++i) h.push_back({ i, i % 3 }); auto v = co_await when_all(*sch, h); for (int i = 0; i < n; ++i) if (v[i] != S::bit(i)) ++t_bad; break; }
	case 2: { auto [a, b, c] = co_await when_all(*sch, Hop{ 10, 0 }, Hop{ 20, 1 }, Hop{ 30, 2 }); if (a != 11 || b != 21 || c != 31) ++t_bad; break; }
	case 3: { auto f = when_all(*sch, Hop{ 10, 0 }, Hop{ 20, 1 }); co_await yield(); auto [a, b] = co_await f; if (a != 11 || b != 21) ++t_bad; break; }
	
#ifdef HOPS_ONLY   // TSan takes the failing compare-exchange of a late operation for a write
	case 4: { auto p = co_await when_any(*sch, Hop{ 10, n % 3 });
#else
	case 4: { auto p = co_await when_any(*sch, Hop{ 10, 0 }, Hop{ 20, 1 }, Hop{ 30, 2 });
#endif
		 if (p.first < 0 || p.first > 2 || !p.second.has_value() || any_cast<int>(p.second) != (p.first + 1) * 10 + 1) ++t_bad; break; }
	case 5: { auto [a] = co_await when_all(*o[n % 3], []() -> future_t<int> { co_return 1; }); if (a != 1) ++t_bad; break; }
	case 6: { auto p = co_await when_any(*o[n % 3], []() -> future_t<int> { co_return 1; }); if (p.first != 0 || any_cast<int>(p.second) != 1) ++t_bad; break; }
	}
	++t_ends;
}
static void threads_(int rounds, std::mt19937& r) {
	std::atomic<bool> stop{ false }; std::latch l(3); std::vector<std::thread> th; std::atomic<int> idle{ 0 };
	for (int k = 0; k < 3; ++k) th.emplace_back([&, k] { local_scheduler_t ls; o[k] = this_scheduler(); l.count_down(); while (!stop) { if (!o[k]->run_one_batch()) std::this_thread::yield(); } ++idle; while (idle < 3) o[k]->run_one_batch(); o[k]->run_until_notask(); });
	l.wait(); int want = 0; t_ends = 0;
	for (int i = 0; i < 60 * rounds; ++i) {
		for (int m = 0; m < 5 + 2 * 4; ++m) { if (m >= 5) { GO hop_all(i + m, 5 + m % 2); ++want; } else GO hop_all(m == 1 ? 64 : r() % 9, m), ++want; }
		auto t0 = std::chrono::steady_clock::now(); while (t_ends != want) { if (!this_scheduler()->run_one_batch()) std::this_thread::yield(); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) fail("completes once, after its last operation", t_ends, want); }
		if (t_bad) fail("results of operations on other threads", t_bad);
	}
	std::this_thread::sleep_for(std::chrono::milliseconds(5)); if (t_ends != want) fail("completes once", t_ends, want);
	stop = true; for (auto& t : th) t.join(); this_scheduler()->run_until_notask();
}
int main(int argc, char** argv) {
	std::mt19937 r(argc > 1 ? atoi(argv[1]) : 1); int rounds = argc > 2 ? atoi(argv[2]) : 1;
	std::thread([&] {
		local_scheduler_t ls;
#ifndef HOPS_ONLY
		nothing();
		for (int i = 0; i < 1500 * rounds; ++i) { all_(r); any_(r); }
#endif
		threads_(rounds, r);
	}).join();
	puts("ok"); return 0;
}
