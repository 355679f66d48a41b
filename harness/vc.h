// Ghost interface of the verification-condition generator (see /verif/DESIGN.md).
#pragma once
#include <cstdint>
#include <cstddef>
#include <utility>
#include <new>
extern "C" {
	uint64_t vc_nondet(uint32_t bits, const char* name);
	int vc_choose(const char* name);
	void vc_assume(bool c);
	void vc_assert(bool c, const char* name);
	void vc_cover(const char* name);
	void* vc_alloc(uint64_t size, const char* name);
	void* vc_alloc_sym(uint64_t size, const char* name);
	void* vc_array(uint64_t count, uint64_t es, const char* name);
	// array of count elements of es bytes; element i is materialised by mk(i, user) when it is first touched
	void* vc_lazy_array(uint64_t count, uint64_t es, void* (*mk)(uint64_t i, void* user), void* user, const char* name);
	bool vc_freed(const volatile void* p);
	void vc_kill(void* p);
	void vc_set_lazy(void* cell, void* (*fn)(void*), void* ctx);
	void* vc_lazy(const void* cell);
	uint64_t vc_k();
	void vc_loop_contract(void (*check)(), void (*havoc)(), const char* name);
	// pointer variables that change per iteration: gen() gives the value at an arbitrary iteration, chk(p) must accept the next one
	void vc_loop_ptr(void* (*gen)(), void (*chk)(void*));
	// integer loop variables that start equal to the ghost integer and stay equal to it at every iteration (inferred: a variable
	// that does not is left alone) are known to be equal to it
	void vc_loop_eq(const void* cell, uint32_t size);
	// the same for the ghost integer not being this value (inferred: dropped where it does not hold)
	void vc_loop_ne(uint32_t value);
	void vc_unroll(uint32_t n);
	void vc_guard(const void* p, uint64_t size, const void* lock);
	void vc_opaque(const void* p, uint64_t size);
	void vc_unguard();
	void vc_set_held(const void* lock, int held);
	int vc_held(const void* lock);
	int vc_nheld();
	[[noreturn]] void vc_end();
	void vc_note(const char*, uint64_t v);
	uint64_t vc_mark();
	int vc_leaks(uint64_t mark);
	int vc_snapshot();
	bool vc_changed(int snap, const void* p, uint64_t n);
	void vc_atomhook(void (*fn)(void* p, int kind, int order));
	bool vc_same(uint64_t a, uint64_t b);
	bool vc_split(bool c);
	uint64_t vc_addr(const void* p);
	// 0 in the proof run; in the bounded stand-in run (loop contracts switched off): exclusive bound on every vc::count
	uint64_t vc_bound();
}
// a callee replaced by its contract at every call site; "by": where the contract itself is discharged, or "trusted"
struct vc_contract_entry { const char* regex; const void* stub; const char* by; };
#define VC_CAT2(a,b) a##b
#define VC_CAT(a,b) VC_CAT2(a,b)
#define VC_CONTRACT(re, stub, by) extern "C" { __attribute__((used)) vc_contract_entry VC_CAT(vc_contract_,__COUNTER__) = { re, (const void*)(stub), by }; }

namespace vc {
	inline uint64_t u64(const char* n) { return vc_nondet(64, n); }
	inline uint32_t u32(const char* n) { return (uint32_t)vc_nondet(32, n); }
	inline uint8_t u8(const char* n) { return (uint8_t)vc_nondet(8, n); }
	inline bool b(const char* n) { return vc_nondet(1, n) != 0; }
	// a number of elements / references: any value up to 2^40
	inline uint64_t count(const char* n) { uint64_t x = vc_nondet(64, n); vc_assume(x < (vc_bound() ? vc_bound() : (1ull << 40))); return x; }
	template<class T> T* raw(const char* n) { return (T*)vc_alloc(sizeof(T), n); }

	// ---------------------------------------------------------------- locks (contract of spinlock / std::mutex)
	// lock: requires not held by this thread (they are not recursive); ensures held. The ghost hooks model interference:
	// on_acquire may replace the protected state by any state that satisfies its invariant; on_release must find the invariant.
	extern void (*on_acquire)(void*);
	extern void (*on_release)(void*);
#ifndef VC_NO_LOCKS
	inline void (*on_acquire)(void*) = nullptr;
	inline void (*on_release)(void*) = nullptr;
	inline int acquires = 0;
	inline void lock(void* l) {
		vc_assert(!vc_held(l), "lock is not already held by the locking thread (no self-deadlock)");
		vc_set_held(l, 1); ++acquires;
		if (on_acquire) on_acquire(l);
	}
	inline bool try_lock(void* l) {
		if (vc_held(l)) return false;
		vc_set_held(l, 1); ++acquires;
		if (on_acquire) on_acquire(l);
		return true;
	}
	inline void unlock(void* l) {
		vc_assert(vc_held(l), "unlock only of a held lock");
		if (on_release) on_release(l);
		vc_set_held(l, 0);
	}
	inline int mtx_lock(void* l) { vc::lock(l); return 0; }
	inline int mtx_trylock(void* l) { return vc::try_lock(l) ? 0 : 16; }
	inline int mtx_unlock(void* l) { vc::unlock(l); return 0; }
#endif
	// ---------------------------------------------------------------- fake coroutine frame with the real frame ABI
	template<class P> struct frame {
		void (*resume)(void*);
		void (*destroy)(void*);
		alignas(16) P promise;
	};
	inline int resumes = 0; inline void* last_resumed = nullptr;
	inline int destroys = 0; inline void* last_destroyed = nullptr;
	inline void (*resume_hook)(void*) = nullptr;
	inline void resume_fn(void* f) { ++resumes; last_resumed = f; if (resume_hook) resume_hook(f); }
	inline void destroy_fn(void* f) { ++destroys; last_destroyed = f; }
	// a suspended coroutine of unknown body
	struct plain_frame { void (*resume)(void*); void (*destroy)(void*); };
	inline void* coro() {
		plain_frame* f = (plain_frame*)vc_alloc(64, "coro");
		f->resume = resume_fn; f->destroy = destroy_fn;
		return f;
	}
}
#ifndef VC_NO_LOCKS
VC_CONTRACT("librf::spinlock::lock\\(\\)", vc::lock, "C16")
VC_CONTRACT("librf::spinlock::try_lock\\(\\)", vc::try_lock, "C16")
VC_CONTRACT("librf::spinlock::unlock\\(\\)", vc::unlock, "C16")
VC_CONTRACT("pthread_mutex_lock", vc::mtx_lock, "trusted")
VC_CONTRACT("pthread_mutex_trylock", vc::mtx_trylock, "trusted")
VC_CONTRACT("pthread_mutex_unlock", vc::mtx_unlock, "trusted")
#endif
#define VC_HARNESS(name) extern "C" __attribute__((used)) void vc_harness_##name()
