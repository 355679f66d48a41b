// Contract of ring_queue used by its callers: a bounded FIFO sequence (discharged against the real code in c01_ring.cpp).
#pragma once
#include "vc.h"
#include <optional>
// values are identified by a 64 bit token
struct Tok {
	static constexpr uint64_t GONE = ~0ull;
	uint64_t id;
	explicit Tok(uint64_t i) noexcept : id(i) {}
	Tok(Tok&& o) noexcept : id(o.id) { o.id = GONE; }
	Tok& operator=(Tok&& o) noexcept { uint64_t x = o.id; o.id = GONE; id = x; return *this; }
	Tok(const Tok&) = delete; Tok& operator=(const Tok&) = delete;
	~Tok() {}
};
namespace vc {
	template<class T> struct tok {
		static uint64_t peek(const T& t) { return (uint64_t)t; }
		static uint64_t take(T& t) { return (uint64_t)t; }
		static T make(uint64_t i) { return (T)i; }
		static bool gone(const T&) { return true; }
		static uint64_t nondet(const char* n) { return sizeof(T) == 1 ? vc_nondet(1, n) : vc_nondet(8 * sizeof(T), n); }
		static uint64_t norm(uint64_t x) { return sizeof(T) == 1 ? (x & 1) : x; }
	};
	template<> struct tok<Tok> {
		static uint64_t peek(const Tok& t) { return t.id; }
		static uint64_t take(Tok& t) { uint64_t x = t.id; t.id = Tok::GONE; return x; }
		static Tok make(uint64_t i) { return Tok(i); }
		static bool gone(const Tok& t) { return t.id == Tok::GONE; }
		static uint64_t nondet(const char* n) { uint64_t x = vc_nondet(64, n); vc_assume(x != Tok::GONE); return x; }
		static uint64_t norm(uint64_t x) { return x; }
	};
	template<class U> struct outv {
		static void put(U* o, uint64_t v) { *o = tok<U>::make(v); }
		static bool has(const U&) { return true; }
		static uint64_t get(const U& o) { return tok<U>::peek(o); }
	};
	template<class U> struct outv<std::optional<U>> {
		static void put(std::optional<U>* o, uint64_t v) { *o = tok<U>::make(v); }
		static bool has(const std::optional<U>& o) { return o.has_value(); }
		static uint64_t get(const std::optional<U>& o) { return tok<U>::peek(*o); }
	};
	// the abstract sequence of one ring_queue object: elements A[lo..hi)
	template<class T, class OPT> struct seq {
		inline static void* q; inline static uint64_t lo, hi, cap; inline static uint64_t* A;
		inline static bool used = false;
		inline static void* lock = nullptr;       // the lock that protects the queue, if its owner names one
		static void any(void* q_, uint64_t n, uint64_t c) {
			q = q_; cap = c; A = (uint64_t*)vc_array(1ull << 42, 8, "elements");
			lo = vc::count("first"); hi = lo + n;
		}
		static uint64_t at(uint64_t j) { return tok<T>::norm(A[lo + j]); }
		static void mine(void* p) { vc_assert(p == q, "operation on this queue"); if (lock) vc_assert(vc_held(lock), "the queue is used in the critical section only"); }
		static bool push(void* p, T* v) { mine(p); if (hi - lo >= cap) return false; A[hi] = tok<T>::take(*v); ++hi; return true; }
		static bool pop(void* p, OPT* o) { mine(p); if (hi == lo) return false; outv<OPT>::put(o, tok<T>::norm(A[lo])); ++lo; return true; }
		static uint32_t size(void* p) { mine(p); return (uint32_t)(hi - lo); }
		static uint32_t capacity(void* p) { mine(p); return (uint32_t)cap; }
		static bool empty(void* p) { mine(p); return hi == lo; }
		static bool full(void* p) { mine(p); return hi - lo == cap; }
	};
}
#define VC_SEQ_CONTRACTS(RE, T, OPT) \
VC_CONTRACT(".*librf::ring_queue<" RE ">::try_push<.*>\\(.*\\)", (vc::seq<T,OPT>::push), "C01 ring_push") \
VC_CONTRACT(".*librf::ring_queue<" RE ">::try_pop<.*>\\(.*\\)", (vc::seq<T,OPT>::pop), "C01 ring_pop") \
VC_CONTRACT("librf::ring_queue<" RE ">::size\\(\\) const", (vc::seq<T,OPT>::size), "C01 ring_query") \
VC_CONTRACT("librf::ring_queue<" RE ">::capacity\\(\\) const", (vc::seq<T,OPT>::capacity), "C01 ring_query") \
VC_CONTRACT("librf::ring_queue<" RE ">::empty\\(\\) const", (vc::seq<T,OPT>::empty), "C01 ring_query") \
VC_CONTRACT("librf::ring_queue<" RE ">::full\\(\\) const", (vc::seq<T,OPT>::full), "C01 ring_query")
