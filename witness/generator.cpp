// Concrete replay of C20: generators of random length, read in part or whole, moved, assigned, run as tasks.
#include "librf/librf.h"
#include <random>
#include <vector>
#include <cstdio>
#include <unistd.h>
#undef go
#define GO (*this_scheduler()) +
using namespace librf;
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
static int live = 0, steps = 0; struct D { std::vector<int>* v = new std::vector<int>(3); D() { ++live; } ~D() { delete v; --live; } };
static generator_t<int> body(int n, int base) { D d; for (int i = 0; i < n; ++i) { ++steps; co_yield base + i; } ++steps; co_return base + n; }
static generator_t<std::string> sbody(int n) { D d; for (int i = 0; i < n; ++i) co_yield std::string(40, 'a' + i % 20); co_return std::string("end of the generator, a long string"); }
int main(int argc, char** argv) {
	uint64_t seed = argc > 1 ? atoi(argv[1]) : 1; int mul = argc > 2 ? atoi(argv[2]) : 1;
	std::mt19937_64 r(seed);
	for (int t = 0; t < 3000 * mul; ++t) {
		int n = r() % 9; int base = r() % 100; int take = r() % 3 ? 1000 : r() % 6; bool mv = r() & 1;
		{
			auto g0 = body(n, base); CHECK(live == 0, "generator ran before it was read");
			generator_t<int> g; if (mv) g = std::move(g0);
			auto& h = mv ? g : g0; int k = 0;
			if (take) for (int x : h) { CHECK(x == base + k, "n=%d: value %d is %d", n, k, x); if (++k >= take) break; CHECK(k <= n + 1, "n=%d: too many values", n); }
			int want = n == 0 ? 0 : n + 1; if (want > take) want = take;
			CHECK(k == want, "n=%d take=%d: %d values visited, expected %d", n, take, k, want);
			if (r() % 2) { h = body(2, 7); int k2 = 0; for (int x : h) { CHECK(x == 7 + k2, "assigned generator: value %d is %d", k2, x); ++k2; } CHECK(k2 == 3, "assigned generator: %d values", k2); }
		}
		CHECK(live == 0, "n=%d take=%d: %d bodies left alive", n, take, live);
		{ int k = 0; for (auto& s : sbody(n)) { CHECK(s == (k < n ? std::string(40, 'a' + k % 20) : std::string("end of the generator, a long string")), "string value %d", k); ++k; } CHECK(k == (n ? n + 1 : 0), "string values: %d", k); }
		CHECK(live == 0, "string body left alive");
	}
	auto* sch = new local_scheduler_t();
	for (int t = 0; t < 50 * mul; ++t) {
		int a = r() % 6, b = r() % 6; steps = 0;
		GO body(a, 0); GO body(b, 10);
		for (int k = 0; k < 20; ++k) this_scheduler()->run_one_batch();
		CHECK(steps == a + b + 2, "tasks: %d steps, expected %d", steps, a + b + 2);
		CHECK(live == 0, "tasks: %d bodies left alive", live);
		CHECK(this_scheduler()->empty(), "scheduler not empty");
	}
	delete sch;
	puts("ok"); return 0;
}
