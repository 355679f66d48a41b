// spinlock on several threads: exclusion, visibility, try_lock
#include <thread>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include "librf/librf.h"
using namespace librf;
static spinlock lk;
static long shared_a, shared_b, tries;
static std::atomic<long> inside{ 0 }, bad{ 0 };
static void body(unsigned seed, int n) {
	for (int i = 0; i < n; ++i) {
		seed = seed * 1103515245u + 12345u;
		bool got = true;
		if ((seed >> 16) & 1) got = lk.try_lock(); else lk.lock();
		if (!got) { continue; }
		if (inside.fetch_add(1, std::memory_order_relaxed) != 0) bad.fetch_add(1);
		++shared_a; if ((seed >> 20) % 64 == 0) std::this_thread::yield(); shared_b = shared_a; ++tries;
		inside.fetch_sub(1, std::memory_order_relaxed);
		lk.unlock();
	}
}
int main(int argc, char** argv) {
	unsigned seed = argc > 1 ? atoi(argv[1]) : 1; int mul = argc > 2 ? atoi(argv[2]) : 1;
	{ spinlock s; if (!s.try_lock()) { puts("try_lock on a free lock failed"); return 1; } if (s.try_lock()) { puts("try_lock on a locked lock succeeded"); return 1; } s.unlock(); if (!s.try_lock()) { puts("unlock did not free the lock"); return 1; } s.unlock();
	  s.lock(); std::atomic<int> in{ 0 }; std::thread t([&] { s.lock(); in = 1; s.unlock(); }); std::this_thread::sleep_for(std::chrono::milliseconds(1500)); if (in) { puts("lock() passed a locked lock after a long wait"); return 1; } s.unlock(); t.join(); if (!in) return 1; }
	for (int r = 0; r < 4 * mul; ++r) {
		std::vector<std::thread> t;
		for (int k = 0; k < 4; ++k) t.emplace_back(body, seed + 7 * k + 31 * r, 20000);
		for (auto& x : t) x.join();
	}
	if (bad || shared_a != shared_b || shared_a != tries) { printf("mutual exclusion broken: %ld %ld %ld\n", (long)bad, shared_a, shared_b); return 1; }
	puts("ok"); return 0;
}
