// Rely/guarantee: while the operation does not hold the object's lock, other threads may take it and change the protected
// state to any state that satisfies its invariant.  What was seen before the (last) acquisition proves nothing afterwards;
// an operation may have an effect in one critical section only.
#pragma once
#include "vc.h"
namespace vc {
	inline void (*rely_init)() = nullptr;      // any protected state
	inline void (*rely_same)() = nullptr;      // asserts that the protected state is as it was when last taken
	inline void* rely_lock = nullptr; inline int rely_n = 0; inline bool rely_lazy = false;
	inline void rely_acquire(void* l) {
		if (l != rely_lock) return;
		if (rely_n > 0) rely_same();
		++rely_n; rely_init();
	}
	inline void rely(void* l, void (*init)(), void (*same)()) {
		rely_lock = l; rely_init = init; rely_same = same; rely_n = 0; init(); on_acquire = rely_acquire;
	}
	inline void rely_off() { on_acquire = nullptr; }
}
