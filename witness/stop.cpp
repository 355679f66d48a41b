// Concrete replay of C14/C15: random histories of sources, tokens and callbacks against a reference model; two-thread races.
#include "librf/librf.h"
#include <vector>
#include <memory>
#include <random>
#include <thread>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#undef go
using namespace milk::concurrency;
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
static std::string hist;
struct G { bool stop = false; int src = 0; };        // one group = one shared state
struct K { int runs = 0; bool reg = false; G* g = nullptr; std::function<void()> act; };
using SC = stop_callback<std::function<void()>>;
static void run(uint64_t seed) {
	std::mt19937_64 r(seed); hist.clear();
	std::vector<std::unique_ptr<G>> gs;
	std::vector<std::pair<stop_source, G*>> S; std::vector<std::pair<stop_token, G*>> T;
	std::vector<std::pair<std::unique_ptr<SC>, std::unique_ptr<K>>> C;
	auto check = [&] {
		for (auto& s : S) CHECK(s.first.stop_requested() == (s.second && s.second->stop), "seed %lu [%s]: source reports the wrong request", seed, hist.c_str());
		for (auto& t : T) {
			CHECK(t.first.stop_requested() == (t.second && t.second->stop), "seed %lu [%s]: token reports the wrong request", seed, hist.c_str());
			CHECK(t.first.stop_possible() == (t.second && (t.second->stop || t.second->src > 0)), "seed %lu [%s]: token reports wrongly whether stop is possible", seed, hist.c_str());
		}
	};
	for (int i = 0; i < 60; ++i) {
		int op = r() % 13; hist += (char)('a' + op);
		auto si = [&] { return r() % S.size(); }; auto ti = [&] { return r() % T.size(); };
		switch (op) {
		case 0: gs.push_back(std::make_unique<G>()); gs.back()->src = 1; S.emplace_back(stop_source(), gs.back().get()); break;
		case 1: if (S.empty()) break; { auto k = si(); T.emplace_back(S[k].first.get_token(), S[k].second); } break;
		case 2: if (S.empty() || S.size() > 6) break; { auto k = si(); auto c = S[k]; if (c.second) ++c.second->src; S.push_back(c); } break;
		case 3: if (S.empty()) break; { auto k = si(); if (S[k].second) --S[k].second->src; std::swap(S[k], S.back()); S.pop_back(); } break;
		case 4: if (T.empty() || T.size() > 6) break; { auto c = T[ti()]; T.push_back(c); } break;
		case 5: if (T.empty()) break; { auto k = ti(); std::swap(T[k], T.back()); T.pop_back(); } break;
		case 6: if (T.size() < 2) break; { auto a = ti(), b = ti(); if (r() & 1) T[a].first = T[b].first, T[a].second = T[b].second; else if (a != b) { T[a].first = std::move(T[b].first); T[a].second = T[b].second; T[b].second = nullptr; } } break;
		case 7: if (S.size() < 2) break; { auto a = si(), b = si(); if (r() & 1) { if (S[b].second) ++S[b].second->src; if (S[a].second) --S[a].second->src; S[a].first = S[b].first; S[a].second = S[b].second; } else if (a != b) { if (S[a].second) --S[a].second->src; S[a].first = std::move(S[b].first); S[a].second = S[b].second; S[b].second = nullptr; } } break;
		case 8: if (S.empty() || r() % 3) break; { auto k = si(); G* g = S[k].second; bool want = g && !g->stop; if (g) g->stop = true; stop_source keep = S[k].first; bool ok = keep.request_stop(); CHECK(ok == want, "seed %lu [%s]: request_stop returned %d", seed, hist.c_str(), ok); } break;
		case 9: case 10: if (T.empty()) break; {
			auto k = ti(); G* g = T[k].second; auto m = std::make_unique<K>(); K* kp = m.get(); m->g = g;
			bool now = g && g->stop; m->reg = g && !g->stop && g->src > 0;
			int victim = r() % 4 == 0 && !C.empty() ? (int)(r() % C.size()) : -1; SC** vic = nullptr; (void)vic;
			auto* cp = &C; K* vk = victim >= 0 ? C[victim].second.get() : nullptr;
			auto f = [kp, cp, vk, now] { ++kp->runs; kp->reg = false; if (!now && vk) for (auto& c : *cp) if (c.second.get() == vk) { c.first.reset(); vk->reg = false; } };
			auto slot = C.size(); C.emplace_back(nullptr, std::move(m));
			if (r() & 1) C[slot].first = std::make_unique<SC>(T[k].first, f); else { stop_token t = T[k].first; C[slot].first = std::make_unique<SC>(std::move(t), f); }
			CHECK(kp->runs == (now ? 1 : 0), "seed %lu [%s]: callback ran %d times at registration", seed, hist.c_str(), kp->runs);
		} break;
		case 11: case 12: if (C.empty()) break; { auto k = r() % C.size(); int n = C[k].second->runs; C[k].first.reset(); CHECK(C[k].second->runs == n, "seed %lu [%s]: deregistering ran the callback", seed, hist.c_str()); C[k].second->reg = false; } break;
		}
		for (auto& c : C) {
			CHECK(c.second->runs <= 1, "seed %lu [%s]: a callback ran twice", seed, hist.c_str());
			if (c.second->reg && c.second->g->stop) CHECK(false, "seed %lu [%s]: a registered callback did not run", seed, hist.c_str());
		}
		check();
	}
	// release in random order
	while (!S.empty() || !T.empty() || !C.empty()) { switch (r() % 3) { case 0: if (!S.empty()) { if (S.back().second) --S.back().second->src; S.pop_back(); check(); } break; case 1: if (!T.empty()) { T.pop_back(); check(); } break; default: if (!C.empty()) C.pop_back(); } }
}
static void race(uint64_t seed, int n) {
	for (int i = 0; i < n; ++i) {
		auto s = std::make_unique<stop_source>(); std::atomic<int> wins{ 0 }; std::atomic<int> go{ 0 };
		struct X { std::atomic<int> runs{ 0 }; std::atomic<bool> in{ false }; };
		auto x = std::make_unique<X>(); X* p = x.get();
		std::atomic<bool> dead{ false }; std::atomic<int> bad{ 0 };
		stop_token tk = s->get_token();
		auto body = [&, p] { if (dead) ++bad; p->in = true; ++p->runs; for (int k = 0; k < (int)(i % 50); ++k) std::this_thread::yield(); p->in = false; };
		using F = stop_callback<decltype(body)>;
		auto cb = std::make_unique<F>(tk, body);
		std::thread a([&] { ++go; while (go < 3); if (s->request_stop()) ++wins; });
		std::thread b([&] { stop_source c = *s; ++go; while (go < 3); if (c.request_stop()) ++wins; });
		++go; while (go < 3); for (int k = 0; k < (int)((i + seed) % 7); ++k) std::this_thread::yield();
		cb.reset(); bool in = p->in; int runs = p->runs; dead = true;
		if (in) { puts("FAIL: a callback was still running when its deregistration returned"); _exit(1); }
		a.join(); b.join();
		if (wins != 1 || bad || p->runs != runs || runs > 1 || !tk.stop_requested()) { printf("FAIL: race: wins %d bad %d runs %d/%d\n", (int)wins, (int)bad, runs, (int)p->runs); fflush(stdout); _exit(1); }
		s.reset();
		// registration against request
		stop_source s2; stop_token t2 = s2.get_token(); std::atomic<int> n2{ 0 };
		std::thread c([&] { s2.request_stop(); });
		{ stop_callback<std::function<void()>> k1(t2, [&] { ++n2; }), k2(t2, [&] { ++n2; }); c.join(); }
		if (n2 != 2) { printf("FAIL: race: %d of 2 callbacks ran\n", (int)n2); fflush(stdout); _exit(1); }
	}
}
int main(int argc, char** argv) {
	uint64_t seed = argc > 1 ? atoi(argv[1]) : 1; int mul = argc > 2 ? atoi(argv[2]) : 1;
	for (int i = 0; i < 20000 * mul; ++i) run(seed * 1000003 + i);
	race(seed, 3000 * mul);
	puts("ok"); return 0;
}
