// Self-test of the verification-condition generator: every ok_* harness must be accepted, every bad_* harness must be refused
// (an obligation fails, or the engine gives no verdict).  Run: python3-vt lvc/selftest/run.py
#include <atomic>
#include <cstring>
#include <exception>
#include <vector>
#include <memory>
#include <mutex>
#include <list>
#include <stdexcept>
#include "vc.h"
namespace librf {
	struct node { node* next = nullptr; int v = 0; };
	struct box { int64_t a = 0, b = 0; uint32_t c = 0; uint8_t d = 0; void* p = nullptr; };
	// ---- loops
	inline uint64_t sum_to(uint64_t n) { uint64_t s = 0; for (uint64_t i = 0; i < n; ++i) s += 3; return s; }
	inline uint64_t count_odd(uint64_t n) { uint64_t s = 0; for (uint64_t i = 0; i < n; ++i) if (i & 1) ++s; return s; }
	inline void step_some(box* x, uint64_t n) { for (uint64_t i = 0; i < n; ++i) if (i < 3 || (i & 1)) x->a += 1; }
	inline void step_all(box* x, uint64_t n) { for (uint64_t i = 0; i < n; ++i) x->a += 2; }
	inline void step_first(box* x, uint64_t n) { for (uint64_t i = 0; i < n; ++i) if (i < 5) x->a += 2; }
	inline uint64_t* walk(uint64_t* p, uint64_t n) { for (uint64_t i = 0; i < n; ++i) { *p = i; ++p; } return p; }
	inline uint64_t* walk_some(uint64_t* p, uint64_t n) { uint64_t* q = p; for (uint64_t i = 0; i < n; ++i) { if (i < 7) ++q; } return q; }
	inline uint64_t last_index(uint64_t* p, uint64_t n, uint64_t x) { for (uint64_t i = n; i-- > 0;) if (p[i] == x) return i; return ~0ull; }
	inline uint64_t swap_loop(uint64_t n) { uint64_t a = 1, b = 2; for (uint64_t i = 0; i < n; ++i) std::swap(a, b); return a; }
	inline int flag_loop(uint64_t n) { bool f = false; for (uint64_t i = 0; i < n; ++i) if (i == 9) f = true; return f; }
	inline uint64_t nested(uint64_t n, uint64_t m) { uint64_t s = 0; for (uint64_t i = 0; i < n; ++i) for (uint64_t j = 0; j < m; ++j) s += 1; return s; }
	inline uint64_t two_steps(uint64_t n) { uint64_t s = 0, t = 0; for (uint64_t i = 0; i < n; ++i) { ++s; if (i != 4) ++t; } return s - t; }
	inline uint32_t narrow(uint64_t n) { uint32_t s = 0; for (uint64_t i = 0; i < n; ++i) ++s; return s; }
	inline void chained(box* x, uint64_t n) { for (uint64_t i = 0; i < n; ++i) { x->b = x->a; x->a = (int64_t)i; } }
	inline box* pick(box* x, box* y, uint64_t n) { box* r = x; for (uint64_t i = 0; i < n; ++i) if (i == 6) r = y; return r; }
	inline void indirect(box* x, box* y, uint64_t n) { x->p = x; for (uint64_t i = 0; i < n; ++i) { box* t = (box*)x->p; t->a += 1; if (i == 3) x->p = y; } }
	// ---- memory
	inline int uaf() { auto* p = new int(3); delete p; return *p; }
	inline void dfree() { auto* p = new int(3); delete p; delete p; }
	inline void oob(uint64_t* p, uint64_t i) { p[i] = 1; }
	inline int* dangling() { int x = 3; int* volatile p = &x; return p; }
	inline int uninit() { int x; int* volatile p = &x; return *p; }
	inline int null_read(int* p) { return *p; }
	inline void interior_free(node* n) { ::operator delete((char*)n + 8); }
	inline void leak_one() { auto* p = new node; p->v = 1; p = nullptr; }
	inline void leak_none() { auto* p = new node; p->v = 1; delete p; }
	struct pack { uint8_t b[16]; };
	inline void copy_part(pack* a, pack* b) { memcpy(a->b + 2, b->b, 9); }
	inline uint32_t mixed(uint64_t x) { union { uint64_t q; uint32_t d[2]; uint8_t c[8]; } u; u.q = x; u.c[5] = 7; return u.d[1]; }
	inline box* choose(bool c, box* a, box* b) { return c ? a : b; }
	struct base { virtual ~base() {} virtual int f() { return 1; } };
	struct derived : base { int f() override { return 2; } };
	inline int virt(base* b) { return b->f(); }
	inline base* downcast(base* b) { return dynamic_cast<derived*>(b); }
	inline uint64_t mt(std::atomic<uint64_t>& a) { uint64_t x = a.load(); a.store(x + 1); return a.fetch_add(2); }
	inline node* find(node* h, int v) { while (h && h->v != v) h = h->next; return h; }
	// ---- integers
	inline uint8_t low(uint32_t x) { return (uint8_t)x; }
	inline int32_t sx(int8_t x) { return x; }
	inline bool less_s(int64_t a, int64_t b) { return a < b; }
	inline bool less_u(uint64_t a, uint64_t b) { return a < b; }
	inline uint64_t rot(uint64_t x) { return (x << 7) | (x >> 57); }
	inline int sw(int x) { switch (x) { case 1: return 10; case 2: return 20; case 300: return 30; default: return 0; } }
	// ---- exceptions
	struct seven : std::exception {};
	inline int thrower(int x) { if (x == 7) throw seven{}; if (x == 8) throw 8; return x; }
	struct count_dtor { int* n; ~count_dtor() { ++*n; } };
	inline int catcher(int x, int* n) { count_dtor g{ n }; try { count_dtor h{ n }; return thrower(x); } catch (std::exception&) { return -1; } catch (...) { return -2; } }
	inline int rethrow(int x, int* n) { try { return catcher(x, n) < 0 ? throw x : x; } catch (int y) { return y + 100; } }
	// ---- atomics and locks
	inline bool cas(std::atomic<int>& a) { int e = 3; return a.compare_exchange_strong(e, 4); }
	inline void twice(std::mutex& m) { std::unique_lock<std::mutex> l(m); std::unique_lock<std::mutex> k(m); }
	inline void unlocked_write(box* x) { x->a = 1; }
	inline void locked_write(std::mutex& m, box* x) { std::lock_guard<std::mutex> l(m); x->a = 1; }
	inline void throws_locked(std::mutex& m, int x) { std::lock_guard<std::mutex> l(m); thrower(x); }
	inline void leak_lock(std::mutex& m, bool b) { m.lock(); if (b) return; m.unlock(); }
	// ---- data
	inline uint64_t vec(uint64_t x) { std::vector<uint64_t> v; v.push_back(x); v.push_back(x + 1); v.push_back(x + 2); std::swap(v[0], v[2]); v.erase(v.begin() + 1); return v[0] * 10 + v.size(); }
	inline uint64_t sp(uint64_t x) { auto p = std::make_shared<uint64_t>(x); auto q = p; p.reset(); return *q + q.use_count(); }
}
using namespace librf;
static uint64_t n_, g_; static box* bx; static uint64_t* arr; static int how;
static void none() {}
static void in_n() { vc_assert(vc_k() <= n_, "k <= n"); }
static void hav_n() { vc_assume(vc_k() <= n_); }
#define LOOPS(check, havoc) vc_loop_contract(check, havoc, "self-test")
static box* any_box() { box* b = new box; b->a = (int64_t)vc::u64("a"); b->b = (int64_t)vc::u64("b"); return b; }

VC_HARNESS(ok_sum) { n_ = vc::count("n"); LOOPS(in_n, hav_n); uint64_t s = sum_to(n_); vc_assert(s == 3 * n_, "sum"); }
VC_HARNESS(bad_sum) { n_ = vc::count("n"); LOOPS(none, none); uint64_t s = sum_to(n_); vc_assert(s != 33, "sum"); }
VC_HARNESS(bad_sum_exit) { n_ = vc::count("n"); LOOPS(none, none); sum_to(n_); vc_assert(n_ < 1000, "exit is reachable for every n"); }
VC_HARNESS(bad_count_odd) { n_ = vc::count("n"); LOOPS(none, none); uint64_t s = count_odd(n_); vc_assert(s == 0 || s == n_, "odd"); }
VC_HARNESS(bad_count_odd2) { n_ = vc::count("n"); LOOPS(none, none); uint64_t s = count_odd(n_); vc_assert(s < 4, "odd"); }
VC_HARNESS(ok_step_all) { bx = any_box(); int64_t a = bx->a; n_ = vc::count("n"); LOOPS(in_n, hav_n); step_all(bx, n_); vc_assert(bx->a == a + (int64_t)(2 * n_), "all"); }
VC_HARNESS(bad_step_some) { bx = any_box(); int64_t a = bx->a; n_ = vc::count("n"); LOOPS(none, none); step_some(bx, n_); vc_assert(bx->a == a + (int64_t)n_, "some"); }
VC_HARNESS(bad_step_some2) { bx = any_box(); int64_t a = bx->a; n_ = vc::count("n"); LOOPS(none, none); step_some(bx, n_); vc_assert(bx->a == a + (int64_t)n_ || n_ < 100, "some"); }
VC_HARNESS(bad_step_first) { bx = any_box(); int64_t a = bx->a; n_ = vc::count("n"); LOOPS(none, none); step_first(bx, n_); vc_assert(bx->a == a + (int64_t)(2 * n_), "first"); }
VC_HARNESS(bad_step_first2) { bx = any_box(); int64_t a = bx->a; n_ = vc::count("n"); LOOPS(none, none); step_first(bx, n_); vc_assert(n_ < 5 || bx->a != a + 10, "first"); }
VC_HARNESS(ok_walk) { n_ = vc::count("n"); arr = (uint64_t*)vc_array(n_, 8, "arr"); LOOPS(none, none); uint64_t* e = walk_some(arr, 2); vc_assert(e == arr + 2, "end"); }
VC_HARNESS(bad_walk_some) { n_ = vc::count("n"); arr = (uint64_t*)vc_array(n_, 8, "arr"); LOOPS(none, none); uint64_t* e = walk_some(arr, n_); vc_assert(e == arr + n_, "end"); }
VC_HARNESS(bad_walk_over) { n_ = vc::count("n"); arr = (uint64_t*)vc_array(n_, 8, "arr"); LOOPS(none, none); walk(arr, n_ + 1); }
VC_HARNESS(bad_swap) { n_ = vc::count("n"); LOOPS(none, none); vc_assert(swap_loop(n_) == 1, "a"); }
VC_HARNESS(bad_swap2) { n_ = vc::count("n"); LOOPS(none, none); vc_assert(swap_loop(n_) == 2, "a"); }
VC_HARNESS(bad_flag) { n_ = vc::count("n"); LOOPS(none, none); vc_assert(flag_loop(n_) == 0, "flag"); }
VC_HARNESS(bad_flag2) { n_ = vc::count("n"); LOOPS(none, none); vc_assert(flag_loop(n_) == 0 || n_ > 9, "flag needs no more than what the contract gives (imprecise, never unsound)"); vc_assert(!(n_ > 9) || flag_loop(n_) == 0, "flag"); }
VC_HARNESS(bad_nested) { n_ = vc::count("n"); uint64_t m = vc::count("m"); LOOPS(none, none); vc_assert(nested(n_, m) != 6, "nested"); }
VC_HARNESS(bad_two_steps) { n_ = vc::count("n"); LOOPS(none, none); vc_assert(two_steps(n_) == 0, "both"); }
VC_HARNESS(ok_narrow) { n_ = vc::count("n"); LOOPS(in_n, hav_n); vc_assert(narrow(n_) == (uint32_t)n_, "narrow"); }
VC_HARNESS(bad_narrow) { n_ = vc::count("n"); LOOPS(none, none); vc_assert(narrow(n_) == n_, "narrow"); }
VC_HARNESS(bad_chained) { bx = any_box(); bx->a = bx->b = 0; n_ = vc::count("n"); LOOPS(none, none); chained(bx, n_); vc_assert(bx->b < 4, "chained"); }
VC_HARNESS(bad_pick) { bx = any_box(); box* y = any_box(); n_ = vc::count("n"); LOOPS(none, none); vc_assert(pick(bx, y, n_) == bx, "pick"); }
VC_HARNESS(bad_indirect) { bx = any_box(); box* y = any_box(); int64_t a = y->a; n_ = vc::count("n"); LOOPS(none, none); indirect(bx, y, n_); vc_assert(y->a == a, "indirect"); }
// a contract whose check does not hold at entry, is not kept, or whose havoc forgets a state
static void chk_a() { vc_assert(bx->a == 2 * (int64_t)vc_k(), "inv"); }
static void hav_a() { bx->a = 2 * (int64_t)vc_k(); }
VC_HARNESS(ok_inv) { bx = any_box(); bx->a = 0; n_ = vc::count("n"); LOOPS(chk_a, hav_a); step_all(bx, n_); vc_loop_contract(nullptr, nullptr, nullptr); }
VC_HARNESS(bad_inv_entry) { bx = any_box(); bx->a = 1; n_ = vc::count("n"); LOOPS(chk_a, hav_a); step_all(bx, n_); }
VC_HARNESS(bad_inv_kept) { bx = any_box(); bx->a = 0; n_ = vc::count("n"); LOOPS(chk_a, hav_a); step_first(bx, n_); }
static void hav_lost() { bx->a = 2 * (int64_t)vc_k(); vc_assume(vc_k() <= 4); }
static void chk_lost() { vc_assert(bx->a == 2 * (int64_t)vc_k() && vc_k() <= 4, "inv"); }
VC_HARNESS(bad_inv_bound) { bx = any_box(); bx->a = 0; n_ = vc::count("n"); LOOPS(chk_lost, hav_lost); step_all(bx, n_); }

VC_HARNESS(bad_uaf) { uaf(); }
VC_HARNESS(bad_dfree) { dfree(); }
VC_HARNESS(ok_in) { n_ = vc::count("n"); uint64_t i = vc::u64("i"); vc_assume(i < n_); oob((uint64_t*)vc_array(n_, 8, "arr"), i); }
VC_HARNESS(bad_oob) { n_ = vc::count("n"); uint64_t i = vc::u64("i"); vc_assume(i <= n_); oob((uint64_t*)vc_array(n_, 8, "arr"), i); }
VC_HARNESS(bad_oob_heap) { oob((uint64_t*)new box, vc::u64("i")); }
VC_HARNESS(bad_dangling) { vc_assert(*dangling() == 3, "x"); }
VC_HARNESS(bad_uninit) { vc_assert(uninit() == 0, "x"); }
VC_HARNESS(bad_null) { int* p = vc::b("null") ? nullptr : new int(1); vc_assert(null_read(p) == 1, "x"); }
VC_HARNESS(bad_interior) { interior_free(new node); }
VC_HARNESS(bad_leak) { uint64_t m = vc_mark(); leak_one(); vc_assert(vc_leaks(m) == 0, "leak"); }
VC_HARNESS(ok_leak) { uint64_t m = vc_mark(); leak_none(); vc_assert(vc_leaks(m) == 0, "leak"); }
static pack* any_pack() { pack* p = new pack; for (int i = 0; i < 16; ++i) p->b[i] = vc::u8("byte"); return p; }
VC_HARNESS(ok_copy) { pack* a = any_pack(); pack* b = any_pack(); uint8_t x = a->b[1], y = b->b[8], z = a->b[11]; copy_part(a, b); vc_assert(a->b[1] == x && a->b[10] == y && a->b[11] == z, "copy"); }
VC_HARNESS(bad_copy) { pack* a = any_pack(); pack* b = any_pack(); uint8_t x = a->b[10]; copy_part(a, b); vc_assert(a->b[10] == x, "copy"); }
VC_HARNESS(bad_mixed) { uint64_t x = vc::u64("x"); vc_assert(mixed(x) == (uint32_t)(x >> 32), "mixed"); }
VC_HARNESS(ok_choose) { box* a = any_box(); box* b = any_box(); bool c = vc::b("c"); choose(c, a, b)->a = 5; vc_assert(c ? a->a == 5 : b->a == 5, "choose"); }
VC_HARNESS(bad_choose) { box* a = any_box(); box* b = any_box(); int64_t o = b->a; choose(vc::b("c"), a, b)->a = 5; vc_assert(b->a == o, "choose"); }
VC_HARNESS(ok_virt) { bool d = vc::b("d"); base* b = d ? new derived : new base; vc_assert(virt(b) == (d ? 2 : 1), "virtual"); }
VC_HARNESS(bad_virt) { base* b = vc::b("d") ? new derived : new base; vc_assert(virt(b) == 1, "virtual"); }
static void other(void* p, int kind, int) { if (kind <= 1) ((std::atomic<uint64_t>*)p)->store(vc::u64("other")); }
VC_HARNESS(bad_interference) { auto* a = new std::atomic<uint64_t>(5); vc_atomhook(other); uint64_t r = mt(*a); vc_atomhook(nullptr); vc_assert(r == 6 && a->load() == 8, "nobody else"); }
VC_HARNESS(ok_list) { node c{ nullptr, 3 }, b{ &c, (int)vc::u32("b") }, a{ &b, (int)vc::u32("a") }; node* r = find(&a, 3); vc_assert(r && r->v == 3, "found"); }
VC_HARNESS(bad_list) { node c{ nullptr, (int)vc::u32("c") }, b{ &c, (int)vc::u32("b") }, a{ &b, (int)vc::u32("a") }; node* r = find(&a, 3); vc_assert(r && r->v == 3, "found"); }
VC_HARNESS(bad_list_end) { node c{ nullptr, 1 }, b{ (node*)vc_alloc(8, "small"), 2 }; b.next = &c; c.next = (node*)((char*)&b + 8); find(&b, 9); }

VC_HARNESS(ok_low) { uint32_t x = vc::u32("x"); vc_assert(low(x) == (x & 255), "low"); }
VC_HARNESS(bad_low) { uint32_t x = vc::u32("x"); vc_assert(low(x) == x, "low"); }
VC_HARNESS(ok_sx) { int8_t x = (int8_t)vc::u8("x"); vc_assert(sx(x) >= -128 && sx(x) <= 127, "sx"); }
VC_HARNESS(bad_sx) { int8_t x = (int8_t)vc::u8("x"); vc_assert(sx(x) >= 0, "sx"); }
VC_HARNESS(bad_less) { int64_t x = (int64_t)vc::u64("x"), y = (int64_t)vc::u64("y"); vc_assert(less_s(x, y) == less_u((uint64_t)x, (uint64_t)y), "less"); }
VC_HARNESS(ok_rot) { uint64_t x = vc::u64("x"); vc_assert((rot(x) >> 7) == (x & ((1ull << 57) - 1)), "rot"); }
VC_HARNESS(bad_rot) { uint64_t x = vc::u64("x"); vc_assert(rot(x) != x || x == 0, "rot"); }
VC_HARNESS(ok_sw) { int x = (int)vc::u32("x"); int r = sw(x); vc_assert(r == 0 || r == 10 || r == 20 || r == 30, "sw"); vc_assert(r != 30 || x == 300, "sw"); }
VC_HARNESS(bad_sw) { int x = (int)vc::u32("x"); vc_assert(sw(x) != 30, "sw"); }

VC_HARNESS(ok_catch) { int x = (int)vc::u32("x"), n = 0; int r = catcher(x, &n); vc_assert(n == 2, "unwound"); vc_assert(r == (x == 7 ? -1 : x == 8 ? -2 : x), "caught"); }
VC_HARNESS(bad_catch) { int x = (int)vc::u32("x"), n = 0; int r = catcher(x, &n); vc_assert(r == (x == 7 ? -1 : x), "caught"); }
VC_HARNESS(bad_escape) { int x = (int)vc::u32("x"); thrower(x); }
VC_HARNESS(bad_rethrow) { int x = (int)vc::u32("x"), n = 0; int r = rethrow(x, &n); vc_assert(r == x, "rethrown"); }

VC_HARNESS(ok_cas) { std::atomic<int> a{ (int)vc::u32("x") }; int x = a.load(); bool r = cas(a); vc_assert(r == (x == 3) && a.load() == (r ? 4 : x), "cas"); }
VC_HARNESS(bad_cas) { std::atomic<int> a{ (int)vc::u32("x") }; vc_assert(!cas(a), "cas"); }
VC_HARNESS(bad_twice) { std::mutex m; twice(m); }
VC_HARNESS(ok_locked) { auto* m = new std::mutex; box* b = any_box(); vc_guard(b, sizeof(box), m); locked_write(*m, b); vc_unguard(); vc_assert(b->a == 1 && vc_nheld() == 0, "locked"); }
VC_HARNESS(bad_unlocked) { auto* m = new std::mutex; box* b = any_box(); vc_guard(b, sizeof(box), m); unlocked_write(b); }
VC_HARNESS(ok_throws_locked) { auto* m = new std::mutex; try { throws_locked(*m, (int)vc::u32("x")); } catch (...) {} vc_assert(vc_nheld() == 0, "released"); }
VC_HARNESS(bad_leak_lock) { auto* m = new std::mutex; leak_lock(*m, vc::b("b")); vc_assert(vc_nheld() == 0, "released"); }

VC_HARNESS(ok_vec) { uint64_t x = vc::u64("x"); vc_assert(vec(x) == (x + 2) * 10 + 2, "vec"); }
VC_HARNESS(bad_vec) { uint64_t x = vc::u64("x"); vc_assert(vec(x) != 1234 * 10 + 2, "vec"); }
VC_HARNESS(ok_sp) { uint64_t m = vc_mark(), x = vc::u64("x"); vc_assert(sp(x) == x + 1, "sp"); vc_assert(vc_leaks(m) == 0, "leak"); }
