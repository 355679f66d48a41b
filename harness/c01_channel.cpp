// C01 / C02: the channel operations (awaiters of read()/write()) against the channel contract, from every channel state
// that satisfies the channel invariant:  readers waiting => buffer empty and no writer waiting;  writers waiting => buffer full.
#include "vc_sched.h"
#include "vc_list.h"
#include "vc_seq.h"
#include "vc_rely.h"
using namespace librf;

VC_SEQ_CONTRACTS("unsigned long, false, unsigned int", uint64_t, uint64_t)
VC_SEQ_CONTRACTS("Tok, true, unsigned int", Tok, std::optional<Tok>)
VC_SEQ_CONTRACTS("bool, false, unsigned int", bool, bool)

template<class CH> struct env {
	using C = typename CH::channel_type;
	using T = typename CH::value_type;
	using opt = typename C::optional_type;
	using SR = typename C::state_read_t;
	using SW = typename C::state_write_t;
	using S = vc::seq<T, opt>;
	inline static CH* ch; inline static C* c;
	inline static uint64_t cap, nv, nr, nw;
	inline static vc::vlist<typename C::read_queue_type> R;
	inline static vc::vlist<typename C::write_queue_type> W;
	inline static scheduler_t* sch;      // of the task under test; every waiter has one of its own
	struct rinfo { SR* s; opt* cell; uint64_t i; scheduler_t* sch; }; struct winfo { SW* s; T* cell; uint64_t v; uint64_t i; scheduler_t* sch; };
	inline static rinfo ri[8]; inline static int nri; inline static winfo wi[8]; inline static int nwi;

	static SR* mk_reader(uint64_t i, void*) {
		opt* cell = new opt();
		SR* s = (SR*)vc_alloc(sizeof(SR), "reader");
		new (s) SR(nullptr, *cell);
		s->_scheduler = vc::any_scheduler("scheduler of a reader"); s->_coro = coroutine_handle<>::from_address(vc::coro());
		s->_count.store((intptr_t)1); ri[nri].sch = s->_scheduler;
		ri[nri].s = s; ri[nri].cell = cell; ri[nri].i = i; ++nri;
		return s;
	}
	static SW* mk_writer(uint64_t i, void*) {
		uint64_t v = vc::tok<T>::nondet("writer_value");
		T* cell = new T(vc::tok<T>::make(v));
		SW* s = (SW*)vc_alloc(sizeof(SW), "writer");
		new (s) SW(nullptr, *cell);
		s->_scheduler = vc::any_scheduler("scheduler of a writer"); s->_coro = coroutine_handle<>::from_address(vc::coro());
		s->_count.store((intptr_t)1); wi[nwi].sch = s->_scheduler;
		wi[nwi].s = s; wi[nwi].cell = cell; wi[nwi].v = v; wi[nwi].i = i; ++nwi;
		return s;
	}
	inline static uint64_t j, oldj, front;
	static uint64_t len() { return S::hi - S::lo; }
	static void unchanged(const char* what) {
		vc_assert(vc::nev == 0 && vc::resumes == 0, what);
		R.check(0, nr, what); W.check(0, nw, what);
		vc_assert(len() == nv && (nv == 0 || S::at(j) == oldj), what);
	}
	// effect of one successful write of v0
	static void wrote(uint64_t v0) {
		vc_assert(nr > 0 || nv < cap, "write completes only when a reader waits or the buffer has room");
		if (nr > 0) {
			vc_cover("write hands the value to a waiting reader");
			vc_assert(nri >= 1 && ri[0].i == 0 && vc::outv<opt>::has(*ri[0].cell) && vc::outv<opt>::get(*ri[0].cell) == v0, "the longest waiting reader gets the written value");
			vc_assert(vc::nev == 1 && vc::evs[0].op == 1 && vc::evs[0].st == ri[0].s && vc::evs[0].sch == ri[0].sch && ri[0].s->_scheduler == ri[0].sch && ri[0].s->has_handler(), "exactly the served reader is scheduled, once, on its scheduler");
			R.check(1, nr, "the other readers keep waiting in order");
			W.check(0, 0, "no writer waits while readers wait");
			vc_assert(len() == 0, "buffer stays empty while readers wait");
		} else {
			vc_cover("write buffered");
			R.check(0, 0, "no reader waits");
			W.check(0, nw, "waiting writers unchanged by a write");
			vc_assert(vc::nev == 0, "a buffered write wakes nobody");
			vc_assert(len() == nv + 1, "a buffered write adds one value");
			vc_assert(S::at(nv) == v0, "the written value is last in the buffer");
			if (nv > 0) vc_assert(S::at(j) == oldj, "buffered values keep their order on write");
		}
		vc_assert(len() <= cap, "buffer never holds more than its capacity");
	}
	// effect of one successful read that returned v
	static void did_read(uint64_t v) {
		vc_assert(nv > 0 || nw > 0, "read completes only when a value is available");
		if (nv > 0) vc_assert(v == front, "read returns the oldest buffered value");
		if (nw > 0) {
			vc_assert(nwi >= 1 && wi[0].i == 0, "the longest waiting writer is served");
			if (nv == 0) { vc_cover("read takes the value of a waiting writer"); vc_assert(v == wi[0].v, "unbuffered read takes the longest waiting writer's value"); }
			else { vc_cover("read refills from a waiting writer"); vc_assert(S::at(nv - 1) == wi[0].v, "the longest waiting writer's value is appended"); }
			vc_assert(vc::nev == 1 && vc::evs[0].op == 1 && vc::evs[0].st == wi[0].s && vc::evs[0].sch == wi[0].sch && wi[0].s->_scheduler == wi[0].sch && wi[0].s->has_handler(), "exactly the served writer is scheduled, once, on its scheduler");
			vc_assert(vc::tok<T>::gone(*wi[0].cell), "the served writer's value is moved out");
			W.check(1, nw, "the other writers keep waiting in order");
			vc_assert(len() == nv, "buffer stays full while writers wait");
		} else {
			vc_cover("read from buffer");
			vc_assert(vc::nev == 0, "a plain read wakes nobody");
			W.check(0, 0, "no writer appears");
			vc_assert(len() == nv - 1, "read removes one value");
		}
		if (j > 0 && nv > 0) { vc_cover("rest of buffer"); vc_assert(S::at(j - 1) == oldj, "remaining values keep their order on read"); }
		R.check(0, nr, "waiting readers unchanged by a read");
	}
};

// any channel state that satisfies the channel invariant: what the operation finds whenever it enters its critical section
static int only_ready;
template<class CH> static void init()
{
	using E = env<CH>; using S = typename E::S;
	E::nri = E::nwi = 0;
	E::nv = vc::u32("buffered"); vc_assume(E::nv <= E::cap);
	S::any(&E::c->_values, E::nv, E::cap);
	E::nr = vc::count("readers"); E::nw = vc::count("writers");
	vc_assume(E::nr == 0 || (E::nv == 0 && E::nw == 0));
	vc_assume(E::nw == 0 || E::nv == E::cap);
	if (vc_bound() && only_ready) vc_assume(only_ready == 1 ? E::nr > 0 || E::nv < E::cap : E::nv > 0 || E::nw > 0);   // bounded stand-in: the first attempt succeeds
	E::R.init(&E::c->_read_awakes, 0, E::nr, E::mk_reader);
	E::W.init(&E::c->_write_awakes, 0, E::nw, E::mk_writer);
	E::j = vc::u64("j"); vc_assume(E::nv == 0 ? E::j == 0 : E::j < E::nv); E::oldj = S::at(E::j); E::front = S::at(0);
}
template<class CH> static void same() { env<CH>::unchanged("an operation changes a channel in one critical section"); }
template<class CH> static void any_state()
{
	using E = env<CH>;
	E::sch = vc::any_scheduler("scheduler");
	E::ch = new CH((size_t)1); E::c = E::ch->_chan.get();
	E::cap = vc::u32("capacity"); vc_assume(E::cap < 0xffffffffull);
	*(size_t*)&E::c->_max_counter = E::cap;
	vc_opaque(&E::c->_values, sizeof(E::c->_values));
	only_ready = 0; E::S::lock = nullptr; vc::rely(&E::c->_lock, init<CH>, same<CH>); E::S::lock = &E::c->_lock;
	vc_guard(&E::c->_read_awakes, sizeof(E::c->_read_awakes), &E::c->_lock);
	vc_guard(&E::c->_write_awakes, sizeof(E::c->_write_awakes), &E::c->_lock);
}
template<class CH> static void fin() { vc::rely_off(); vc_assert(vc_nheld() == 0, "no lock is kept"); vc_assert(vc::resumes == 0, "nobody is resumed inside the operation"); }
template<class CH> static void again_check() { vc_assert(vc_nheld() == 0, "no lock is kept between attempts"); if (vc::rely_n > 0) same<CH>(); }
template<class CH> static void again_havoc() { vc::rely_n = 0; init<CH>(); }

template<class CH> static void h_write()
{
	using E = env<CH>; using T = typename E::T;
	any_state<CH>();
	uint64_t v0 = vc::tok<T>::nondet("v");
	auto* fr = vc::task_frame<promise_t<int>>(E::sch);
	auto* aw = new typename CH::write_awaiter(E::ch->write(vc::tok<T>::make(v0)));
	bool ready = aw->await_ready();
	vc_assert(vc_nheld() == 0, "no lock is kept");
	if (ready) { vc_cover("write ready"); E::wrote(v0); }
	else {
		if (vc::rely_n > 0) same<CH>();
		bool susp = aw->await_suspend(vc::handle(fr));
		if (!susp) { E::wrote(v0); }
		else {
			vc_cover("writer waits");
			vc_assert(E::nr == 0 && E::nv == E::cap, "a writer waits only when no reader waits and the buffer is full");
			auto* s = aw->_state.get();
			vc_assert(s != nullptr && s->_scheduler == E::sch && s->_coro.address() == (void*)fr && vc::tok<T>::peek(*s->_value) == v0, "the waiting writer is registered with its value, coroutine and scheduler");
			E::W.check_app(0, E::nw, s, "a new writer waits behind the others");
			E::R.check(0, 0, "readers unchanged when a writer starts waiting");
			vc_assert(vc::nev == 0, "starting to wait wakes nobody");
			vc_assert(E::len() == E::nv && (E::nv == 0 || E::S::at(E::j) == E::oldj), "buffer unchanged when a writer starts waiting");
		}
	}
	fin<CH>();
	uint64_t nv2 = E::len(); int nev2 = vc::nev;
	aw->await_resume();
	bool done = aw->_channel == nullptr;
	vc_assert(done, "a completed or waiting write keeps no claim for a second delivery");
	if (aw->_state.get() == nullptr) { delete aw; vc_assert(E::len() == nv2 && vc::nev == nev2, "destroying a completed write has no further effect"); }
}
template<class CH> static void h_read()
{
	using E = env<CH>; using T = typename E::T;
	any_state<CH>();
	auto* fr = vc::task_frame<promise_t<int>>(E::sch);
	auto* aw = new typename CH::read_awaiter(E::ch->read());
	bool ready = aw->await_ready();
	vc_assert(vc_nheld() == 0, "no lock is kept");
	bool susp = false;
	if (!ready) {
		if (vc::rely_n > 0) same<CH>();
		susp = aw->await_suspend(vc::handle(fr));
	} else vc_cover("read ready");
	fin<CH>();
	vc_assert(aw->_channel == nullptr, "a completed or waiting read keeps no claim for a second value");
	if (susp) {
		vc_cover("reader waits");
		vc_assert(E::nv == 0 && E::nw == 0, "a reader waits only when no value is available");
		auto* s = aw->_state.get();
		vc_assert(s != nullptr && s->_scheduler == E::sch && s->_coro.address() == (void*)fr && s->_value == &aw->_value, "the waiting reader is registered with its coroutine, scheduler and result place");
		E::R.check_app(0, E::nr, s, "a new reader waits behind the others");
		E::W.check(0, 0, "writers unchanged when a reader starts waiting");
		vc_assert(vc::nev == 0 && E::len() == 0, "starting to wait has no other effect");
		// the value stored by the writer that serves it is what co_await returns
		uint64_t v1 = vc::tok<T>::nondet("served");
		vc::outv<typename E::opt>::put(s->_value, v1);
		T r = aw->await_resume();
		vc_assert(vc::tok<T>::peek(r) == v1, "a served reader returns the value handed to it");
	} else {
		T r = aw->await_resume();
		E::did_read(vc::tok<T>::peek(r));
		uint64_t nv2 = E::len(); int nev2 = vc::nev;
		delete aw;
		vc_assert(E::len() == nv2 && vc::nev == nev2, "destroying a completed read has no further effect");
	}
}
// operations outside a coroutine (awaiter discarded without co_await): they try until they succeed
template<class CH> static void h_discard_write()
{
	using E = env<CH>; using T = typename E::T;
	any_state<CH>();
	uint64_t v0 = vc::tok<T>::nondet("v");
	vc_loop_contract(again_check<CH>, again_havoc<CH>, "try until written"); only_ready = 1;
	{ auto aw = E::ch->write(vc::tok<T>::make(v0)); (void)aw; }
	vc_loop_contract(nullptr, nullptr, ""); fin<CH>();
	E::wrote(v0);
}
template<class CH> static void h_discard_read()
{
	using E = env<CH>; using T = typename E::T;
	any_state<CH>();
	auto* aw = new typename CH::read_awaiter(E::ch->read());
	vc_loop_contract(again_check<CH>, again_havoc<CH>, "try until read"); only_ready = 2;
	aw->~read_awaiter();
	vc_loop_contract(nullptr, nullptr, ""); fin<CH>();
	E::did_read(E::nv > 0 ? E::front : (E::nwi > 0 ? E::wi[0].v : 0));
}
// a scheduled waiter is resumed exactly once
template<class CH> static void h_resume()
{
	using E = env<CH>; using T = typename E::T;
	any_state<CH>();
	auto* fr = vc::coro();
	auto* s = E::mk_reader(0, nullptr);
	s->_coro = coroutine_handle<>::from_address(fr);
	state_base_t* b = s;
	vc_assert(b->has_handler(), "a waiting reader has its coroutine");
	b->resume();
	vc_assert(vc::resumes == 1 && vc::last_resumed == fr, "the waiting coroutine is resumed");
	b->resume();
	vc_assert(vc::resumes == 1, "and only once");
}
template<class CH> static void h_ctor()
{
	uint64_t cap = vc::u32("capacity"); vc_assume(cap < 0xffffffffull);
	CH& ch = *new CH((size_t)cap);
	vc_assert(ch.valid() && ch.capacity() == cap, "a new channel has the requested capacity");
	vc_assert(ch._chan->_read_awakes._header == nullptr && ch._chan->_read_awakes._tailer == nullptr && ch._chan->_write_awakes._header == nullptr && ch._chan->_write_awakes._tailer == nullptr, "a new channel has no waiters");
	vc_assert(ch._chan->_values.m_readIndex == ch._chan->_values.m_writeIndex && ch._chan->_values.m_bufferSize == cap + 1, "a new channel is empty");
}
#define ALL(N, CH) \
VC_HARNESS(write_##N) { h_write<CH>(); } \
VC_HARNESS(read_##N) { h_read<CH>(); } \
VC_HARNESS(discard_write_##N) { h_discard_write<CH>(); } \
VC_HARNESS(discard_read_##N) { h_discard_read<CH>(); } \
VC_HARNESS(resume_##N) { h_resume<CH>(); }
using CH_pod = channel_t<uint64_t, false, false>;
using CH_move = channel_t<Tok, true, false>;
using CH_sem = channel_t<bool, false, true>;
ALL(pod, CH_pod)
ALL(move, CH_move)
ALL(sem, CH_sem)
VC_HARNESS(ctor_pod) { h_ctor<CH_pod>(); }
VC_HARNESS(ctor_sem) { h_ctor<CH_sem>(); }
