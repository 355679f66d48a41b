// Abstract scheduler and coroutine environment shared by the harnesses.
#pragma once
#include "librf/librf.h"
#include "vc.h"
namespace vc {
	using namespace librf;
	// ---- contract of scheduler_t::add_generator (discharged by C10): the state is appended to the run queue exactly once
	struct sched_ev { scheduler_t* sch; state_base_t* st; int op; };
	inline sched_ev evs[32]; inline int nev = 0;
	inline uint64_t n_added = 0;       // total number of states handed to a scheduler
	inline void (*on_added)(scheduler_t*, state_base_t*) = nullptr;
	inline void (*on_final)(scheduler_t*, state_base_t*) = nullptr;
	inline void add_generator(scheduler_t* s, state_base_t* st) {
		vc_assert(s != nullptr && st != nullptr, "a state is scheduled on a live scheduler");
		++n_added;
		if (on_added) { on_added(s, st); return; }
		if (nev < 32) { evs[nev].sch = s; evs[nev].st = st; evs[nev].op = 1; ++nev; }
	}
	inline uint64_t n_final = 0;
	inline void del_final(scheduler_t* s, state_base_t* st) {
		vc_assert(s != nullptr && st != nullptr, "a task is retired on a live scheduler");
		++n_final;
		if (on_final) { on_final(s, st); return; }
		if (nev < 32) { evs[nev].sch = s; evs[nev].st = st; evs[nev].op = 2; ++nev; }
	}
	inline scheduler_t* any_scheduler(const char* n) { return (scheduler_t*)vc_alloc(sizeof(scheduler_t), n); }
	// the scheduler of the running thread: not one that the objects of a harness belong to (signals, writes and unlocks come from any thread)
	inline scheduler_t* cur_sched = nullptr;
	inline scheduler_t* this_sched() { if (cur_sched == nullptr) cur_sched = any_scheduler("scheduler of the running thread"); return cur_sched; }
	// a suspended coroutine with promise type P that belongs to scheduler sch
	template<class P> frame<P>* task_frame(scheduler_t* sch) {
		frame<P>* f = raw<frame<P>>("task_frame");
		f->resume = resume_fn; f->destroy = destroy_fn;
		::new ((void*)&f->promise) P();
		f->promise.get_state()->set_scheduler(sch);
		return f;
	}
	template<class P> coroutine_handle<P> handle(frame<P>* f) { return coroutine_handle<P>::from_address(f); }
}
#ifndef VC_REAL_SCHED
VC_CONTRACT("librf::scheduler_t::add_generator\\(librf::state_base_t\\*\\)", vc::add_generator, "C10")
VC_CONTRACT("librf::this_scheduler\\(\\)", vc::this_sched, "C19")
VC_CONTRACT("librf::scheduler_t::del_final\\(librf::state_base_t\\*\\)", vc::del_final, "C11")
#endif
