// C01: ring_queue against the bounded-FIFO specification, for every capacity, index position and content.
#include "librf/librf.h"
#include "vc_seq.h"
using namespace librf;

template<class Q> struct ring {
	using T = typename Q::value_type; using opt = typename Q::optional_type;
	inline static Q* q; inline static uint32_t B, w, r, n;
	// any representation: buffer of B = capacity+1 slots, 0 <= r,w < B
	static void any() {
		B = vc::u32("bufferSize"); vc_assume(B >= 1);
		w = vc::u32("writeIndex"); vc_assume(w < B);
		r = vc::u32("readIndex"); vc_assume(r < B);
		q = vc::raw<Q>("ring");
		new (&q->m_bufferPtr) typename Q::container_type((opt*)vc_array(B, sizeof(opt), "buffer"));
		q->m_bufferSize = B; q->m_writeIndex = w; q->m_readIndex = r;
		n = len(w, r);
	}
	static uint32_t slot(uint32_t r, uint32_t j) { return vc_split(j >= B - r) ? j - (B - r) : r + j; }
	static uint32_t len(uint32_t w, uint32_t r) { return vc_split(w >= r) ? w - r : B - (r - w); }
	static opt& at(uint32_t j) { return q->m_bufferPtr.get()[slot(q->m_readIndex, j)]; }
	static void wf() { vc_assert(q->m_readIndex < B && q->m_writeIndex < B && q->m_bufferSize == B, "indices stay inside the buffer"); }
};
template<class Q> static void h_push()
{
	using R = ring<Q>; using T = typename R::T; using opt = typename R::opt;
	R::any();
	uint32_t n = R::n, B = R::B;
	uint32_t j = vc::u32("j"); vc_assume(n == 0 ? j == 0 : j < n);
	uint64_t old = 0;
	if (n > 0) { vc_assume(vc::outv<opt>::has(R::at(j))); old = vc::outv<opt>::get(R::at(j)); }
	uint64_t v0 = vc::tok<T>::nondet("v");
	T v = vc::tok<T>::make(v0);
	bool ok = R::q->try_push(std::move(v));
	R::wf();
	vc_assert(ok == (n < B - 1), "push succeeds exactly when the queue is not full");
	uint32_t n2 = R::len(R::q->m_writeIndex, R::q->m_readIndex);
	vc_assert(n2 == n + (ok ? 1u : 0u), "push adds exactly one element");
	if (n > 0) vc_assert(vc::outv<opt>::has(R::at(j)) && vc::outv<opt>::get(R::at(j)) == old, "push keeps the elements before it in order");
	if (ok) {
		vc_cover("push ok");
		vc_assert(vc::outv<opt>::has(R::at(n)) && vc::outv<opt>::get(R::at(n)) == v0, "the pushed value is the last element");
		vc_assert(vc::tok<T>::gone(v), "the pushed value is moved in");
	} else { vc_cover("push full"); vc_assert(vc::tok<T>::peek(v) == v0, "a refused push leaves the value with the caller"); }
}
template<class Q> static void h_pop()
{
	using R = ring<Q>; using T = typename R::T; using opt = typename R::opt;
	R::any();
	uint32_t n = R::n, B = R::B;
	uint64_t first = 0, old = 0;
	uint32_t j = vc::u32("j"); vc_assume(n <= 1 ? j == 1 : (j >= 1 && j < n));
	if (n > 0) { vc_assume(vc::outv<opt>::has(R::at(0))); first = vc::outv<opt>::get(R::at(0)); }
	if (n > 1) { vc_assume(vc::outv<opt>::has(R::at(j))); old = vc::outv<opt>::get(R::at(j)); }
	opt& slot0 = R::at(0);
	uint64_t v0 = vc::tok<T>::nondet("v");
	opt v(vc::tok<T>::make(v0));
	bool ok = R::q->try_pop(v);
	R::wf();
	vc_assert(ok == (n > 0), "pop succeeds exactly when the queue is not empty");
	uint32_t n2 = R::len(R::q->m_writeIndex, R::q->m_readIndex);
	vc_assert(n2 == n - (ok ? 1u : 0u), "pop removes exactly one element");
	if (ok) {
		vc_cover("pop ok"); vc_assert(vc::outv<opt>::has(v) && vc::outv<opt>::get(v) == first, "pop returns the oldest element");
		if constexpr (Q::use_option) vc_assert(!vc::outv<opt>::has(slot0), "a popped optional element is released");
	}
	else { vc_cover("pop empty"); vc_assert(vc::outv<opt>::get(v) == v0, "a failed pop leaves the output alone"); }
	if (n > 1) vc_assert(vc::outv<opt>::has(R::at(j - 1)) && vc::outv<opt>::get(R::at(j - 1)) == old, "pop keeps the rest in order");
}
template<class Q> static void h_query()
{
	using R = ring<Q>;
	R::any();
	vc_assert(R::q->size() == R::n, "size() is the number of elements");
	vc_assert(R::q->empty() == (R::n == 0), "empty() iff no element");
	vc_assert(R::q->full() == (R::n == R::B - 1), "full() iff capacity elements");
	vc_assert(R::q->capacity() == R::B - 1, "capacity() is the constructor argument");
	vc_assert(R::q->m_readIndex == R::r && R::q->m_writeIndex == R::w && R::q->m_bufferSize == R::B, "queries change nothing");
	vc_cover("query");
}
template<class Q> static void h_ctor()
{
	uint64_t sz = vc::u64("sz"); vc_assume(sz < 0xffffffffull);
	Q& q = *new Q(sz);
	vc_assert(q.m_bufferSize == sz + 1 && q.m_readIndex == 0 && q.m_writeIndex == 0, "constructor makes an empty queue of the given capacity");
	uint32_t i = vc::u32("slot"); vc_assume(i <= sz);
	q.m_bufferPtr.get()[i] = 7;        // every slot an index can refer to exists
	vc_assert(q.m_bufferPtr.get()[i] == 7 && q.m_bufferSize == sz + 1, "the buffer has a slot for every index");
	vc_cover("ctor");
}
using Q_pod = ring_queue<uint64_t, false, uint32_t>;
using Q_move = ring_queue<Tok, true, uint32_t>;
using Q_bool = ring_queue<bool, false, uint32_t>;
VC_HARNESS(ring_push_pod) { h_push<Q_pod>(); }
VC_HARNESS(ring_push_move) { h_push<Q_move>(); }
VC_HARNESS(ring_push_bool) { h_push<Q_bool>(); }
VC_HARNESS(ring_pop_pod) { h_pop<Q_pod>(); }
VC_HARNESS(ring_pop_move) { h_pop<Q_move>(); }
VC_HARNESS(ring_pop_bool) { h_pop<Q_bool>(); }
VC_HARNESS(ring_query) { h_query<Q_pod>(); }
VC_HARNESS(ring_ctor) { h_ctor<Q_pod>(); }
