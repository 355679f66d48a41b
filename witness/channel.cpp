// Concrete replay of C01/C02 against the real library: random single-thread histories compared with a reference model.
#include "librf/librf.h"
#include <deque>
#include <vector>
#include <random>
#include <thread>
#include <cstdio>
#include <cstdlib>
using namespace librf;
struct Mov {
	std::unique_ptr<uint64_t> p;
	Mov() = default; Mov(uint64_t v) : p(new uint64_t(v)) {}
	Mov(Mov&&) = default; Mov& operator=(Mov&&) = default;
	operator uint64_t() const { return p ? *p : ~0ull; }
};
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); exit(1); } } while (0)
static std::string hist;
template<class CH, class V> void run(uint64_t seed, const char* nm)
{
	std::mt19937_64 g(seed);
	size_t cap = g() % 5;
	hist.clear();
	auto* sch = new local_scheduler_t();
	{
		CH ch(cap);
		struct RES { bool done = false; uint64_t v = 0; int times = 0; };
		std::deque<uint64_t> buf; std::deque<std::pair<uint64_t, RES*>> ws; std::deque<RES*> rs;
		std::vector<RES*> all; std::vector<RES*> expDone;
		uint64_t next = 1;
		std::vector<std::pair<RES*, uint64_t>> expR;
		std::vector<RES*> order, expOrder;
		int steps = 40;
		for (int s = 0; s < steps; ++s) {
			bool wr = (g() % 100) < (s < steps / 2 ? 60 : 40);
			RES* r = new RES; all.push_back(r);
			if (wr) {
				uint64_t v = std::is_same_v<V, bool> ? (g() & 1) : next++;
				hist += "w" + std::to_string(v) + " ";
				go[ch, v, r, &order]() -> future_t<> { co_await ch.write(V(v)); r->done = true; r->times++; order.push_back(r); };
				if (!rs.empty()) { RES* q = rs.front(); rs.pop_front(); q->v = v; expR.push_back({ q, v }); expOrder.push_back(r); expOrder.push_back(q); }
				else if (buf.size() < cap) { buf.push_back(v); expOrder.push_back(r); }
				else ws.push_back({ v, r });
			} else {
				hist += "r ";
				go[ch, r, &order]() -> future_t<> { auto v = co_await ch.read(); r->v = (uint64_t)v; r->done = true; r->times++; order.push_back(r); };
				if (!buf.empty()) {
					uint64_t v = buf.front(); buf.pop_front(); expR.push_back({ r, v }); expOrder.push_back(r);
					if (!ws.empty()) { buf.push_back(ws.front().first); expOrder.push_back(ws.front().second); ws.pop_front(); }
				} else if (!ws.empty()) { expR.push_back({ r, ws.front().first }); expOrder.push_back(r); expOrder.push_back(ws.front().second); ws.pop_front(); }
				else rs.push_back(r);
			}
			for (int k = 0; k < 4; ++k) this_scheduler()->run_one_batch();
			for (auto& e : expR) CHECK(e.first->done && e.first->v == e.second, "%s seed %lu cap %zu history [%s]: a read returned %lu (done %d), expected %lu", nm, seed, cap, hist.c_str(), e.first->v, e.first->done, e.second);
			for (auto& e : ws) CHECK(!e.second->done, "%s seed %lu cap %zu history [%s]: a write completed though the buffer is full", nm, seed, cap, hist.c_str());
			for (auto* e : rs) CHECK(!e->done, "%s seed %lu cap %zu history [%s]: a read completed without a value", nm, seed, cap, hist.c_str());
			CHECK(order.size() == expOrder.size(), "%s seed %lu cap %zu history [%s]: %zu operations completed, expected %zu", nm, seed, cap, hist.c_str(), order.size(), expOrder.size());
			for (auto* e : expOrder) CHECK(e->done && e->times == 1, "%s seed %lu cap %zu history [%s]: an operation that must complete did not (or twice)", nm, seed, cap, hist.c_str());
		}
		// drain
		while (!ws.empty() || !buf.empty()) {
			RES* r = new RES; all.push_back(r);
			uint64_t v; if (!buf.empty()) { v = buf.front(); buf.pop_front(); if (!ws.empty()) { buf.push_back(ws.front().first); ws.pop_front(); } } else { v = ws.front().first; ws.pop_front(); }
			go[ch, r]() -> future_t<> { auto x = co_await ch.read(); r->v = (uint64_t)x; r->done = true; };
			for (int k = 0; k < 4; ++k) this_scheduler()->run_one_batch();
			CHECK(r->done && r->v == v, "%s seed %lu cap %zu history [%s] drain: read %lu expected %lu", nm, seed, cap, hist.c_str(), r->v, v);
		}
		while (!rs.empty()) {
			RES* q = rs.front(); rs.pop_front();
			go[ch]() -> future_t<> { co_await ch.write(V((uint64_t)1)); };
			for (int k = 0; k < 4; ++k) this_scheduler()->run_one_batch();
			CHECK(q->done, "%s seed %lu cap %zu history [%s] drain: reader not served", nm, seed, cap, hist.c_str());
		}
		for (int k = 0; k < 4; ++k) this_scheduler()->run_one_batch();
		CHECK(this_scheduler()->empty(), "%s seed %lu history [%s]: tasks left over", nm, seed, hist.c_str());
	}
	delete sch;
}
static void discard(uint64_t seed)
{
	std::mt19937_64 g(seed);
	size_t cap = 1 + g() % 4;
	channel_t<uint64_t> ch(cap);
	for (size_t i = 0; i < cap; ++i) (void)ch.write((uint64_t)(i + 10));
	size_t drop = g() % cap;
	for (size_t i = 0; i < drop; ++i) (void)ch.read();
	local_scheduler_t sch;
	std::vector<uint64_t> got;
	go[&]() -> future_t<> { for (size_t i = drop; i < cap; ++i) got.push_back(co_await ch.read()); };
	for (int k = 0; k < 40; ++k) this_scheduler()->run_one_batch();
	CHECK(got.size() == cap - drop, "discarded awaiters: %zu values, expected %zu", got.size(), cap - drop);
	for (size_t i = drop; i < cap; ++i) CHECK(got[i - drop] == i + 10, "discarded awaiters: wrong order");
}
// An operation that finds nothing to do is overtaken by another one before it is put in line.
template<class A, class F> struct late {
	A a; F f;
	bool await_ready() { if (a.await_ready()) return true; f(); return false; }
	template<class P> auto await_suspend(std::coroutine_handle<P> h) { return a.await_suspend(h); }
	decltype(auto) await_resume() { return a.await_resume(); }
};
template<class A, class F> late(A, F) -> late<A, F>;
template<class A, class F> struct librf::traits::is_awaitor<late<A, F>> : std::true_type {};
template<class CH> static void overtaken(uint64_t seed)
{
	std::mt19937_64 g(seed);
	size_t cap = 1 + g() % 4;
	local_scheduler_t sch;
	{
		CH ch(cap);
		uint64_t got = 0; bool done = false;
		go[ch, &got]() -> future_t<> { got = co_await late{ ch.read(), [ch] { (void)ch.write((uint64_t)7); } }; };
		for (int k = 0; k < 10; ++k) this_scheduler()->run_one_batch();
		CHECK(got == 7, "seed %lu cap %zu: a write between the test and the queueing of a read: the read did not get the value (%lu)", seed, cap, got);
		for (size_t i = 0; i < cap; ++i) (void)ch.write((uint64_t)(i + 10));
		go[ch, &done]() -> future_t<> { co_await late{ ch.write((uint64_t)99), [ch] { (void)ch.read(); } }; done = true; };
		for (int k = 0; k < 10; ++k) this_scheduler()->run_one_batch();
		CHECK(done, "seed %lu cap %zu: a read between the test and the queueing of a write: the write did not complete", seed, cap);
		std::vector<uint64_t> all;
		go[&, ch]() -> future_t<> { for (size_t i = 0; i < cap; ++i) all.push_back(co_await ch.read()); };
		for (int k = 0; k < 10 + 2 * (int)cap; ++k) this_scheduler()->run_one_batch();
		CHECK(all.size() == cap && all.back() == 99, "seed %lu cap %zu: a write overtaken by a read: values lost or out of order", seed, cap);
		for (size_t i = 0; i + 1 < cap; ++i) CHECK(all[i] == i + 11, "seed %lu cap %zu: a write overtaken by a read: values lost or out of order", seed, cap);
	}
	for (int k = 0; k < 4; ++k) this_scheduler()->run_one_batch();
}
// The two ends belong to schedulers of different threads: whoever waits is resumed by its own.
template<class CH> static void across(uint64_t seed)
{
	std::mt19937_64 g(seed);
	size_t cap = g() % 3, n = 1 + g() % 3; bool readers_wait = g() & 1;
	local_scheduler_t sch;
	{
		CH ch(cap);
		std::vector<uint64_t> got; size_t written = 0;
		const auto me = std::this_thread::get_id(); bool wrong = false;
		std::thread::id rd = me, wr = me;
		auto reader = [&, ch](std::thread::id* t) -> future_t<> { uint64_t v = co_await ch.read(); got.push_back(v); if (std::this_thread::get_id() != *t) wrong = true; };
		auto writer = [&, ch](uint64_t v, std::thread::id* t) -> future_t<> { co_await ch.write(v); ++written; if (std::this_thread::get_id() != *t) wrong = true; };
		size_t m = readers_wait ? n : n + cap;
		if (readers_wait) for (size_t i = 0; i < n; ++i) go reader(&rd); else for (size_t i = 0; i < m; ++i) go writer(i + 1, &wr);
		for (size_t k = 0; k < 3 + 2 * m; ++k) this_scheduler()->run_one_batch();
		CHECK(readers_wait ? got.empty() : written == cap, "seed %lu cap %zu: %zu operations went ahead", seed, cap, readers_wait ? got.size() : written);
		std::thread([&] {
			local_scheduler_t other;
			(readers_wait ? wr : rd) = std::this_thread::get_id();
			if (readers_wait) for (size_t i = 0; i < m; ++i) go writer(i + 1, &wr); else for (size_t i = 0; i < m; ++i) go reader(&rd);
			for (size_t k = 0; k < 6 + 2 * m; ++k) this_scheduler()->run_one_batch();
			CHECK(readers_wait ? got.empty() && written == n : got.size() == m && written == cap, "seed %lu cap %zu: who waits on another scheduler was resumed here, or an operation is stuck", seed, cap);
			CHECK(this_scheduler()->empty(), "seed %lu cap %zu: tasks left over", seed, cap);
		}).join();
		for (size_t k = 0; k < 6 + 2 * m; ++k) this_scheduler()->run_one_batch();
		CHECK(got.size() == m && written == m && !wrong, "seed %lu cap %zu: %zu of %zu values read, %zu written%s", seed, cap, got.size(), m, written, wrong ? ", on the wrong thread" : "");
		for (size_t i = 0; i < m; ++i) CHECK(got[i] == i + 1, "seed %lu cap %zu: out of order", seed, cap);
		CHECK(this_scheduler()->empty(), "seed %lu cap %zu: tasks left over", seed, cap);
	}
}
int main(int argc, char** argv)
{
	uint64_t seed = argc > 1 ? atoll(argv[1]) : 1; int mul = argc > 2 ? atoi(argv[2]) : 1;
	setvbuf(stdout, nullptr, _IONBF, 0);
	for (int i = 0; i < 60 * mul; ++i) {
		uint64_t s = seed * 1000003 + i;
		overtaken<channel_t<uint64_t, false, false>>(s); overtaken<channel_t<uint64_t, false, true>>(s); overtaken<channel_t<uint64_t, true, true>>(s);
		across<channel_t<uint64_t, false, false>>(s); across<channel_t<uint64_t, true, true>>(s);
	}
	for (int i = 0; i < 300 * mul; ++i) {
		run<channel_t<uint64_t>, uint64_t>(seed * 1000003 + i, "channel_t<uint64_t>");
		run<channel_t<Mov>, Mov>(seed * 1000003 + i, "channel_t<move-only>");
		run<channel_t<bool, false, true>, bool>(seed * 1000003 + i, "semaphore_t");
		discard(seed * 1000003 + i);
	}
	printf("channel witness: ok\n");
	return 0;
}
