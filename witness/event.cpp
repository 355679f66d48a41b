// Concrete replay of C03/C04/C05 against the real library: random histories compared with a reference model, and two-thread stress.
#include "librf/librf.h"
#include <deque>
#include <vector>
#include <random>
#include <thread>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#undef go
#define GO (*this_scheduler()) +
using namespace librf;
using namespace std::chrono;
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
static std::string hist;
struct W { int id; bool done = false; int result = -1; int times = 0; bool mdone = false; int mresult = -1; int left = 0; bool all = false; };
static void batches(int n = 5) { for (int k = 0; k < n; ++k) this_scheduler()->run_one_batch(); }
static void run(uint64_t seed)
{
	std::mt19937_64 g(seed); hist.clear();
	auto* sch = new local_scheduler_t();
	const int NE = 3;
	std::vector<event_t> ev; std::vector<int> cnt(NE, 0); std::vector<std::deque<W*>> q(NE);
	for (int i = 0; i < NE; ++i) { bool b = g() & 1; ev.emplace_back(b); cnt[i] = b; hist += b ? "+" : "-"; }
	std::vector<W*> all; std::vector<int> order, morder;
	auto fin = [&](W* w, int r) { w->mdone = true; w->mresult = r; morder.push_back(w->id); };
	auto wake1 = [&](W* w) -> bool { if (w->mdone) return false; if (w->all) { if (--w->left == 0) fin(w, 1); return true; } fin(w, 1); return true; };
	auto msignal = [&](int e) { bool ok = false; while (!q[e].empty() && !ok) { W* x = q[e].front(); q[e].pop_front(); ok = wake1(x); } if (!ok) ++cnt[e]; };
	auto past = system_clock::now() - seconds(5); auto far = system_clock::now() + hours(5);
	auto verify = [&] {
		for (W* x : all) {
			CHECK(x->times <= 1, "seed %lu history [%s]: wait %d ended %d times", seed, hist.c_str(), x->id, x->times);
			CHECK(x->done == x->mdone, "seed %lu history [%s]: wait %d %s", seed, hist.c_str(), x->id, x->done ? "ended though nothing completed it" : "did not end");
			if (x->done) CHECK(x->result == x->mresult, "seed %lu history [%s]: wait %d returned %d, expected %d", seed, hist.c_str(), x->id, x->result, x->mresult);
		}
		CHECK(order == morder, "seed %lu history [%s]: waits ended in the wrong order", seed, hist.c_str());
	};
	for (int s = 0; s < 40; ++s) {
		int e = g() % NE; int op = g() % 11;
		if (op < 3) {
			W* w = new W; w->id = s; all.push_back(w);
			int mode = g() % 3;
			hist += (mode == 0 ? " w" : mode == 1 ? " p" : " f") + std::to_string(e);
			event_t x = ev[e];
			GO [&order, x, w, mode, past, far]() -> future_t<> { bool r = mode == 0 ? co_await x.wait() : mode == 1 ? co_await x.wait_until(past) : co_await x.wait_until(far); w->result = r; w->times++; w->done = true; order.push_back(w->id); };
			if (cnt[e] > 0) { --cnt[e]; fin(w, 1); } else if (mode == 1) fin(w, 0); else q[e].push_back(w);
		} else if (op < 5) {
			W* w = new W; w->id = s; all.push_back(w);
			std::vector<int> sub; for (int i = 0; i < NE; ++i) if (g() & 1) sub.push_back(i);
			bool timed = g() & 1;
			std::vector<event_t> es; hist += timed ? " A" : " a"; for (int i : sub) { es.push_back(ev[i]); hist += std::to_string(i); }
			GO [es, w, timed, &order]() -> future_t<> { bool r = timed ? co_await event_t::wait_all_for(seconds(-5), es) : co_await event_t::wait_all(es); w->result = r; w->times++; w->done = true; order.push_back(w->id); };
			w->all = true; std::vector<int> miss;
			for (int i : sub) if (cnt[i] > 0) --cnt[i]; else miss.push_back(i);
			w->left = (int)miss.size();
			if (miss.empty()) fin(w, 1); else if (timed) fin(w, 0); else for (int i : miss) q[i].push_back(w);
		} else if (op < 9) { hist += " s" + std::to_string(e); ev[e].signal(); msignal(e); }
		else if (op == 9) { hist += " S" + std::to_string(e); ev[e].signal_all(); while (!q[e].empty()) { W* x = q[e].front(); q[e].pop_front(); wake1(x); } }
		else { hist += " r" + std::to_string(e); ev[e].reset(); cnt[e] = 0; }
		batches(); verify();
	}
	hist += " |end";
	for (int e = 0; e < NE; ++e) { int lim = 0; while (!q[e].empty() && ++lim < 200) { ev[e].signal(); msignal(e); batches(); verify(); } }
	for (int e = 0; e < NE; ++e) { int have = 0; while (ev[e].wait().await_ready()) ++have; CHECK(have == cnt[e], "seed %lu history [%s]: event %d stores %d signals, expected %d", seed, hist.c_str(), e, have, cnt[e]); }
	this_scheduler()->timer()->clear(); batches();
	delete sch;
	for (W* w : all) delete w;
}
// signals are conserved between two threads, with time-outs and resets in play
static void stress_timed(uint64_t seed, int ms)
{
	event_t ev; std::atomic<uint64_t> sent{ 0 }; uint64_t got = 0; std::atomic<bool> stop{ false };
	std::thread t([&] { std::mt19937_64 g(seed); while (!stop) { ev.signal(); ++sent; for (int i = g() % 200; i > 0; --i) std::this_thread::yield(); } });
	{
		local_scheduler_t sch;
		auto end = steady_clock::now() + milliseconds(ms);
		for (int k = 0; k < 4; ++k) GO [&]() -> future_t<> { while (steady_clock::now() < end) { if (co_await ev.wait_for(microseconds(20))) ++got; } };
		auto limit = steady_clock::now() + seconds(20);
		while (!this_scheduler()->empty()) { this_scheduler()->run_one_batch(); CHECK(steady_clock::now() < limit, "two-thread stress: timed waits never end"); }
		stop = true; t.join();
		while (ev.wait().await_ready()) ++got;
	}
	CHECK(got == sent.load(), "two-thread stress seed %lu: %lu signals sent, %lu received or stored", seed, sent.load(), got);
}
static void stress_reset(int N)
{
	event_t e; std::atomic<int> gg{ 0 }, done{ 0 }; int bad = 0;
	std::thread t1([&] { for (int i = 1; i <= N; ++i) { while (gg.load() < i); (void)e.wait().await_ready(); done.fetch_add(1); } });
	std::thread t2([&] { for (int i = 1; i <= N; ++i) { while (gg.load() < i); e.reset(); e.reset(); done.fetch_add(1); } });
	for (int i = 1; i <= N; ++i) { e.signal(); done = 0; gg = i; while (done.load() < 2); if (e.wait().await_ready()) ++bad; }
	t1.join(); t2.join();
	CHECK(bad == 0, "reset stress: %d signals appeared that nobody sent", bad);
}
static void stress_all(int ms)
{
	std::atomic<bool> stop{ false }; std::atomic<uint64_t> rounds{ 0 };
	event_t evs[3];
	std::thread sig([&] { while (!stop) { for (auto& e : evs) { e.signal(); for (int i = 0; i < 50; ++i) std::this_thread::yield(); } } });
	std::thread mon([&] { uint64_t last = ~0ull; while (!stop) { for (int i = 0; i < 30 && !stop; ++i) std::this_thread::sleep_for(milliseconds(100)); if (stop) break; uint64_t r = rounds; CHECK(r != last, "wait_all stress: no progress after %lu rounds (deadlock)", r); last = r; } });
	{
		local_scheduler_t sch; std::vector<event_t> v(evs, evs + 3);
		auto end = steady_clock::now() + milliseconds(ms);
		GO [&]() -> future_t<> { while (steady_clock::now() < end) { for (auto& e : evs) e.reset(); (void)co_await event_t::wait_all_for(microseconds(20), v); ++rounds; } };
		while (!this_scheduler()->empty()) this_scheduler()->run_one_batch();
	}
	stop = true; sig.join(); mon.join();
}
// the waiting task goes on, and lets go of its wait, as soon as it has been woken by another thread
static void stress_handover(int N)
{
	event_t ev[2]; std::vector<event_t> v(ev, ev + 2); std::atomic<int> round{ 0 }; std::atomic<int> woken{ 0 };
	std::thread b([&] { for (int i = 0; i < N; ++i) { while (round.load(std::memory_order_relaxed) <= i) std::this_thread::yield(); std::this_thread::sleep_for(microseconds(50)); for (auto& e : ev) e.signal(); } });
	{
		local_scheduler_t sch; int good = 0;
		GO [&]() -> future_t<> { for (int i = 0; i < N; ++i) { auto aw = event_t::wait_all(v); round.fetch_add(1, std::memory_order_relaxed); if (co_await aw) ++good; woken.fetch_add(1, std::memory_order_relaxed); } };
		auto limit = steady_clock::now() + seconds(60);
		while (!this_scheduler()->empty()) { this_scheduler()->run_one_batch(); CHECK(steady_clock::now() < limit, "wait_all over two threads: round %d of %d never ended", woken.load(), N); }
		CHECK(good == N, "wait_all over two threads: %d of %d waits succeeded", good, N);
	}
	b.join();
}
struct peek : event_t::awaiter { peek(event_t::awaiter a) : event_t::awaiter(a) {} detail::event_v2_impl* impl() { return _event; } };
static void special()
{
	local_scheduler_t sch;
	for (int all = 0; all < 2; ++all) for (int live = 0; live < 3; ++live) for (int dead = 0; dead < 3; ++dead) {
		// waiters that no longer wait are still queued for a moment (a time-out that has claimed its wait and has yet to leave the list)
		event_t e; std::vector<int> woken; std::vector<detail::event_v2_impl*> slots(8);
		for (int d = 0; d < dead; ++d) { auto* impl = slots[d] = peek(e.wait()).impl(); counted_ptr<detail::state_event_t> st(new detail::state_event_t(slots[d])); impl->add_wait_list(st.get()); st->on_cancel(); }
		for (int l = 0; l < live; ++l) GO [&, l]() -> future_t<> { co_await e.wait(); woken.push_back(l); };
		batches();
		if (all) e.signal_all(); else e.signal();
		batches();
		int want = all ? live : (live ? 1 : 0), kept = (!all && !live) ? 1 : 0, have = 0;
		CHECK((int)woken.size() == want, "%s with %d dead and %d live waiters woke %d", all ? "signal_all" : "signal", dead, live, (int)woken.size());
		while (e.wait().await_ready()) ++have;
		CHECK(have == kept, "%s with %d dead and %d live waiters stored %d signals", all ? "signal_all" : "signal", dead, live, have);
		e.signal_all(); batches();
	}
	{ // cancelled timers are neither a signal nor a time-out
		event_t e; std::vector<event_t> v{ e }; int r = -1, ra = -1;
		GO [&]() -> future_t<> { r = co_await e.wait_for(hours(5)); };
		GO [&]() -> future_t<> { ra = co_await event_t::wait_all_for(hours(5), v); };
		batches(); this_scheduler()->timer()->clear(); batches();
		CHECK(r == -1 && ra == -1, "a wait ended (%d, %d) because its timer was cancelled", r, ra);
		e.signal(); e.signal(); batches();
		CHECK(r == 1 && ra == 1, "a wait whose timer was cancelled did not get its signal (%d, %d)", r, ra);
	}
}
int main(int argc, char** argv)
{
	uint64_t seed = argc > 1 ? atoll(argv[1]) : 1; int mul = argc > 2 ? atoi(argv[2]) : 1;
	setvbuf(stdout, nullptr, _IONBF, 0);
	stress_handover(2000 * mul);
#ifndef HANDOVER_ONLY
	special();
	for (int i = 0; i < 400 * mul; ++i) run(seed * 1000003 + i);
	for (int i = 0; i < 3; ++i) stress_timed(seed + i, 700 * mul);
	stress_reset(200000 * mul);
	stress_all(3000 * mul);
#endif
	printf("event witness: ok\n");
	return 0;
}
