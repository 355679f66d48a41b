#pragma once
#include "vc_sched.h"
using namespace librf;
// ------------------------------------------------------------------ contract of the timer (discharged by C09)
namespace vc {
	inline detail::timer_target_ptr* last_target; inline int n_timers; inline int64_t timer_tp; inline void* timer_mgr;
	inline void timer_add(detail::timer_target_ptr* ret, timer_manager* mgr, const detail::timer_target_ptr& t) {
		vc_assert(t.get() != nullptr, "a timer target is registered");
		++n_timers; timer_tp = t->tp.time_since_epoch().count(); timer_mgr = mgr;
		last_target = new detail::timer_target_ptr(t);
		::new ((void*)ret) detail::timer_target_ptr(t);
	}
	inline int n_stop, n_reset; inline timer_handler* stopped;
	inline bool th_stop(timer_handler* h) { ++n_stop; stopped = h; return true; }
	inline void th_reset(timer_handler* h) { ++n_reset; stopped = h; }
	inline scheduler_t* timed_scheduler(const char* n) {
		scheduler_t* s = any_scheduler(n);
		::new ((void*)&s->_timer) timer_mgr_ptr(std::make_shared<timer_manager>());
		return s;
	}
}
VC_CONTRACT("librf::timer_manager::add_\\(std::shared_ptr<librf::detail::timer_target> const&\\)", vc::timer_add, "C09")
VC_CONTRACT("librf::timer_handler::stop\\(\\)", vc::th_stop, "C09")
VC_CONTRACT("librf::timer_handler::reset\\(\\)", vc::th_reset, "C09")

