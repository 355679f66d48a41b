// Concrete replay of C10 / C11 / C19: batches, hand-over order, registry, moving between schedulers, stop-all, current scheduler.
#include "librf/librf.h"
#include <random>
#include <deque>
#include <set>
#include <cstdio>
#include <unistd.h>
#undef go
#define GO (*this_scheduler()) +
using namespace librf;
static void fail(const char* w, long a = 0, long b = 0) { printf("FAIL: %s (%ld, %ld)\n", w, a, b); fflush(stdout); _exit(1); }
static int live; struct D { std::vector<int>* v = new std::vector<int>(3); D() { ++live; } D(const D& o) : v(new std::vector<int>(*o.v)) { ++live; } D(D&& o) : v(new std::vector<int>(*o.v)) { ++live; } ~D() { if (!v) fail("destroyed twice"); delete v; v = nullptr; --live; } bool ok() const { return v && v->size() == 3; } };
static void pump(scheduler_t* s, int n = 50) { for (int i = 0; i < n; ++i) s->run_one_batch(); }
// ---- order of resumption against a queue model: a task is a script of steps
struct script { int yields; std::vector<int> spawn; };
static std::vector<script> scripts; static std::vector<std::pair<int, int>> log_;
static future_t<> run_script(int id) {
	D d; auto& s = scripts[id];
	for (int k = 0; k <= s.yields; ++k) {
		log_.push_back({ id, k });
		if (k < (int)s.spawn.size() && s.spawn[k] >= 0) { if (s.spawn[k] & 1) GO run_script(s.spawn[k]); else GO [id = s.spawn[k], d2 = D()]() -> future_t<> { if (!d2.ok()) fail("function object gone"); co_await run_script(id); if (!d2.ok()) fail("function object gone"); }; }
		if (k < s.yields) co_await yield();
		if (!d.ok()) fail("task locals gone");
	}
}
static void orders(std::mt19937& r) {
	int n = 1 + r() % 6, next = n; scripts.clear(); log_.clear();
	for (int i = 0; i < n; ++i) scripts.push_back({ (int)(r() % 5), {} });
	for (int i = 0; i < (int)scripts.size(); ++i) { int y = scripts[i].yields; for (int k = 0; k <= y; ++k) { int c = -1; if (r() % 4 == 0 && scripts.size() < 20) { c = (int)scripts.size(); scripts.push_back({ (int)(r() % 4), {} }); } scripts[i].spawn.push_back(c); } }
	for (int i = 0; i < n; ++i) GO run_script(i);
	if (!log_.empty()) fail("a task ran when it was started");
	// model: (id, step) ; a wrapped task (even id, spawned) needs one turn more before its first step
	struct q { int id, k; bool wrap; }; std::deque<q> Q, N; for (int i = 0; i < n; ++i) Q.push_back({ i, 0, false });
	std::vector<std::pair<int, int>> want; std::vector<size_t> per;
	while (!Q.empty()) {
		N.clear();
		for (auto& e : Q) {
			if (e.wrap) { N.push_back({ e.id, 0, false }); continue; }
			want.push_back({ e.id, e.k }); auto& s = scripts[e.id]; int c = s.spawn[e.k];
			if (c >= 0) N.push_back({ c, 0, !(c & 1) });
			if (e.k < s.yields) N.push_back({ e.id, e.k + 1, false });
		}
		Q = N; per.push_back(want.size());
	}
	for (size_t b = 0; b < per.size(); ++b) {
		if (this_scheduler()->empty()) fail("a scheduler with tasks says it is empty");
		if (!this_scheduler()->run_one_batch()) fail("a batch with ready tasks ran nothing", (long)b);
		if (log_.size() != per[b]) fail("number of steps in a batch", (long)log_.size(), (long)per[b]);
	}
	for (size_t i = 0; i < want.size(); ++i) if (log_[i] != want[i]) fail("order of resumption", log_[i].first, want[i].first);
	pump(this_scheduler(), 5); if (!this_scheduler()->empty()) fail("tasks left"); if (live) fail("task resources released", live);
	if (this_scheduler()->run_one_batch()) fail("an idle scheduler ran something");
}
// ---- results handed over from other threads
static void threads_(std::mt19937& r) {
	int n = 1 + r() % 40, T = 1 + r() % 3; std::vector<awaitable_t<int>> a(n); int done = 0; long sum = 0;
	for (int i = 0; i < n; ++i) GO [&, f = a[i].get_future()]() -> future_t<> { D d; sum += co_await f; ++done; };
	if (r() & 1) pump(this_scheduler(), 3);
	std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back([&, t] { for (int i = t; i < n; i += T) a[i].set_value(i); });
	this_scheduler()->run_until_notask();
	if (done != n || sum != (long)n * (n - 1) / 2) fail("every result is delivered before running ends", done, n);
	for (auto& t : th) t.join(); if (!this_scheduler()->empty()) fail("tasks left"); if (live) fail("task resources released", live);
}
static void until() {
	bool a = false, b = false; auto* s = this_scheduler();
	GO [&]() -> future_t<> { co_await sleep_for(std::chrono::milliseconds(3)); a = true; };
	awaitable_t<> w; GO [&, f = w.get_future()]() -> future_t<> { co_await f; b = true; };
	std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(6)); w.set_value(); });
	s->run_until_notask(); if (!a || !b) fail("running ends only when nothing is left", a, b); t.join();
	bool c = false; s->timer()->add(std::chrono::milliseconds(4), [&](bool canceled) { c = !canceled; }); if (s->empty()) fail("a scheduler with a timer says it is empty"); s->run_until_notask(); if (!c) fail("running ends only when no timer is left");
	{ awaitable_t<> e; GO e.get_future(); if (s->empty()) fail("a registered result counts"); pump(s, 3); if (s->empty()) fail("a registered result counts"); e.set_value(); if (!s->empty()) fail("a completed result leaves"); }
}
// ---- stop
static void stops(std::mt19937& r) {
	auto* s = this_scheduler(); int n = r() % 6; std::vector<int> req(n), can(n); int timers = 0, nested = 0, ended = 0; awaitable_t<> wa; std::vector<future_t<>> wait; if (n == 1 && (r() & 1)) wait.push_back(wa.get_future()); int before = r() % 6;
	std::vector<std::unique_ptr<stop_callback<std::function<void()>>>> cbs; bool re = r() & 1;
	for (int i = 0; i < n; ++i) {
		task_t* t = GO [d = D(), &ended, &wait]() -> future_t<> { for (int k = 0; k < 3; ++k) co_await yield(); if (wait.size()) { co_await wait[0]; } if (!d.ok()) fail("function object gone"); ++ended; };
		can[i] = r() & 1; if (can[i]) cbs.push_back(std::make_unique<stop_callback<std::function<void()>>>(t->get_stop_token(), [&, i] { ++req[i]; if (re) { ++nested; GO []() -> future_t<> { co_return; }; } }));
	}
	for (int i = 0; i < 2; ++i) s->timer()->add(std::chrono::hours(1), [&](bool c) { if (!c) fail("timer fired early"); ++timers; });
	pump(s, before); int alive = live;
	for (int i = 0; i < n; ++i) if (req[i]) fail("stopped too early");
	bool none = ended == n;
	s->request_stop_all_if_possible();
	if (live != alive) fail("a task that is asked to stop stays alive", live, alive); if (!none && s->empty()) fail("a task that is asked to stop stays registered");
	if (!none && ended == 0) for (int i = 0; i < n; ++i) if (req[i] != can[i]) fail("every task that can be stopped is asked once", req[i], can[i]);
	for (int i = 0; i < n; ++i) can[i] = req[i];
	if (timers != 2) fail("timers are cancelled", timers); s->request_stop_all_if_possible(); for (int i = 0; i < n; ++i) if (req[i] != can[i]) fail("a stop is requested once");
	cbs.clear(); pump(s, 8); if (wait.size()) { if (s->empty()) fail("a waiting task stays registered"); wa.set_value(); pump(s, 3); } if (ended != n) fail("a task that was asked to stop goes on", ended, n); if (live) fail("task resources released", live); if (!s->empty()) fail("tasks left");
}
// ---- moving
static future_t<int> mover(scheduler_t* to, std::vector<scheduler_t*>* seen) { D d; seen->push_back(co_await get_current_scheduler()); co_await via(to); seen->push_back(co_await get_current_scheduler()); co_await yield(); co_return 5; }
struct pub : scheduler_t {};
static future_t<int> deep(int n, scheduler_t* to, int* ok) { D d; int x; if (n == 0) { co_await via(to); auto* root = co_await get_root_state(); if (!to->find_task(root)) fail("the task of a nested coroutine moves along"); x = 0; } else x = co_await deep(n - 1, to, ok); if (co_await get_current_scheduler() != to) fail("the awaiting tasks move along", n); ++*ok; co_return x + 1; }
static void deeps(std::mt19937& r) {
	auto* s = this_scheduler(); auto* o = new pub; int n = r() % 7, ok = 0, x = 0;
	GO [&]() -> future_t<> { x = co_await deep(n, o, &ok); };
	for (int k = 0; k < 20; ++k) s->run_one_batch(); if (!s->empty()) fail("a task that moved away leaves its scheduler", n); if (o->empty()) fail("a task that moved is registered with its new scheduler");
	pump(o); pump(s, 2); if (ok != n + 1 || x != n + 1) fail("a task that moves ends once", ok, n); if (!o->empty() || !s->empty()) fail("tasks left"); if (live) fail("task resources released", live); delete o;
}
// very many tasks at once
static void big() {
	const int N = 150000; static std::vector<int> at(N); static int step, bad; step = bad = 0;
	for (int i = 0; i < N; ++i) GO [](int i) -> future_t<> { for (int k = 0; k < 2; ++k) { if (at[i] != k || step != i + k * N) ++bad; ++step; ++at[i]; co_await yield(); } }(i);
	this_scheduler()->run_one_batch(); if (step != N || bad) fail("every ready task is resumed in its batch, in order", step, bad); this_scheduler()->run_one_batch(); if (step != 2 * N || bad) fail("every ready task is resumed in its batch, in order", step, bad);
	pump(this_scheduler(), 3); if (!this_scheduler()->empty()) fail("tasks left"); std::fill(at.begin(), at.end(), 0);
}
// a function object that has a name: the task keeps its own copy
static void named(std::mt19937& r) {
	int n = r() % 5, got = 0;
	{ const auto f = [n, d = D(), &got]() -> future_t<> { for (int i = 0; i < n; ++i) co_await yield(); if (!d.ok()) fail("function object gone"); ++got; }; GO f; if (r() & 1) GO f; else --got; }
	{ std::vector<int> overwrite(100, 7); pump(this_scheduler(), 10); }
	if (got != 2 && got != 0) fail("a named function object runs", got); if (live) fail("task resources released", live);
}
static void moves(std::mt19937& r) {
	auto* s = this_scheduler(); auto* o = new pub; if (this_scheduler() != s) fail("another scheduler is not installed");
	int n = 1 + r() % 5; std::vector<std::vector<scheduler_t*>> seen(n); std::vector<int> done(n), kind(n); 
	for (int i = 0; i < n; ++i) {
		kind[i] = r() % 4; auto* to = kind[i] == 3 ? s : o;
		if (kind[i] == 1) GO [&, i, to, d = D()]() -> future_t<> { int x = co_await mover(to, &seen[i]); if (!d.ok()) fail("function object gone"); seen[i].push_back(co_await get_current_scheduler()); if (x == 5) ++done[i]; };
		else if (kind[i] == 2) GO [&, i, to, d = D()]() -> future_t<> { co_await via(to); co_await via(to); seen[i].push_back(nullptr); int x = co_await mover(s, &seen[i]); if (!d.ok()) fail("function object gone"); if (x == 5) ++done[i]; };
		else GO [&, i, to, d = D()]() -> future_t<> { co_await mover(to, &seen[i]); auto* t = co_await get_current_task(); if (!t) fail("a task is registered with the scheduler it moved to"); if (!d.ok()) fail("function object gone"); ++done[i]; };
	}
	for (int k = 0; k < 12; ++k) { s->run_one_batch(); if (k > 3 && (r() & 1)) o->run_one_batch(); }
	pump(s, 3); bool onlyo = s->empty(); int k1 = 0; for (int i = 0; i < n; ++i) if (kind[i] == 2) k1 = 1; if (!k1 && !onlyo) fail("a task that moved away leaves its scheduler");
	pump(o); pump(s); pump(o);
	for (int i = 0; i < n; ++i) {
		if (done[i] != 1) fail("a task that moves ends once", kind[i], done[i]);
		if (kind[i] == 0 && !(seen[i][0] == s && seen[i][1] == o)) fail("scheduler of a task that moved");
		if (kind[i] == 1 && !(seen[i][0] == s && seen[i][1] == o && seen[i][2] == o)) fail("the awaiting task moves along");
		if (kind[i] == 3 && !(seen[i][0] == s && seen[i][1] == s)) fail("scheduler of a task that stayed");
	}
	if (!s->empty() || !o->empty()) fail("tasks left"); if (live) fail("task resources released", live);
	delete o; if (this_scheduler() != s) fail("destroying another scheduler changes nothing");
}
static generator_t<int> gen(int n, int* c) { D d; for (int i = 0; i < n; ++i) { ++*c; co_yield i; } ++*c; co_return n; }
static void generators(std::mt19937& r) {
	int n = r() % 6, c = 0; GO gen(n, &c); if (c) fail("a generator ran when it was started");
	for (int i = 0; i <= n; ++i) { if (!this_scheduler()->run_one_batch()) fail("generator not ready", i, n); if (c != i + 1) fail("one step per batch", c, i + 1); }
	if (!this_scheduler()->empty()) fail("a finished generator leaves"); if (live) fail("generator frame destroyed", live);
}
// ---- current scheduler
static scheduler_t* dflt() { scheduler_t* d = nullptr; std::thread t([&] { d = this_scheduler(); }); t.join(); return d; }
static void current(std::mt19937& r) {
	auto* D0 = dflt(); auto* mine = this_scheduler();
	std::thread t([&] {
		if (this_scheduler() != D0) fail("default scheduler");
		int order = r() % 3; pub* given = nullptr;
		{
			auto* a = new local_scheduler_t; auto* A = this_scheduler(); if (A == D0 || A == mine) fail("a local scheduler is a new one"); if (!A->empty()) fail("a new scheduler is empty");
			auto* b = new local_scheduler_t; if (this_scheduler() != A) fail("a second local scheduler changes nothing");
			auto* c = new local_scheduler_t(*D0); if (this_scheduler() != A) fail("a given scheduler does not replace an installed one");
			if (order == 0) { delete c; delete b; if (this_scheduler() != A) fail("the installed scheduler stays"); delete a; if (this_scheduler() != D0) fail("default restored"); }
			if (order == 1) { delete b; if (this_scheduler() != A) fail("the installed scheduler stays"); delete a; if (this_scheduler() != D0) fail("default restored"); delete c; }
			if (order == 2) { delete a; if (this_scheduler() != D0) fail("default restored"); auto* e = new local_scheduler_t; auto* E = this_scheduler(); if (E == D0) fail("a new local scheduler"); delete b; delete c; if (this_scheduler() != E) fail("the installed scheduler stays"); delete e; }
		}
		if (this_scheduler() != D0) fail("default restored");
		given = new pub; if (this_scheduler() != given) fail("a new scheduler is installed when there is none"); 
		{ local_scheduler_t x; if (this_scheduler() != given) fail("the installed scheduler stays"); } if (this_scheduler() != given) fail("the installed scheduler stays");
		auto* other = new pub; if (this_scheduler() != given) fail("the installed scheduler stays"); delete other; if (this_scheduler() != given) fail("the installed scheduler stays");
		delete given; if (this_scheduler() != D0) fail("a destroyed scheduler is not current");
		{ local_scheduler_t x(*mine); if (this_scheduler() != mine) fail("a given scheduler is installed"); local_scheduler_t y(*D0); if (this_scheduler() != mine) fail("the installed scheduler stays"); }
	});
	t.join(); if (this_scheduler() != mine) fail("another thread changes nothing here");
}
int main(int argc, char** argv) {
	std::mt19937 r(argc > 1 ? atoi(argv[1]) : 1); int rounds = argc > 2 ? atoi(argv[2]) : 1;
	local_scheduler_t ls;
	for (int i = 0; i < 20; ++i) current(r);
	until();
	for (int i = 0; i < 1500 * rounds; ++i) orders(r);
	for (int i = 0; i < 300 * rounds; ++i) { stops(r); deeps(r); named(r); moves(r); generators(r); }
	for (int i = 0; i < 60 * rounds; ++i) threads_(r);
	{ int n = 3000; std::vector<int> o; for (int i = 0; i < n; ++i) GO [&, i]() -> future_t<> { o.push_back(i); co_return; }; pump(this_scheduler(), 4); for (int i = 0; i < n; ++i) if (i >= (int)o.size() || o[i] != i) fail("a long ready queue", i); if (!this_scheduler()->empty()) fail("tasks left"); }
	big();
	puts("ok"); return 0;
}
