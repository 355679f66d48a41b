"""property id -> verification units (harness file, library sources linked in) and concrete replay drivers"""
COMMON = [
    'machine integers are bit-vectors (no mathematical-integer abstraction); waiting-list and reference counts are assumed below 2^40',
    'locks: critical sections are atomic with respect to the other operations on the same object (contract of spinlock, discharged by C16, and of std::mutex, trusted); guarded fields are proved to be touched only with their lock held',
    'memory model: sequential consistency for the operations inside one function; data-race freedom of fields outside the lock discipline is argued per property, not proved',
    'operator new never fails',
]
P = {}

P['C01'] = dict(
    title='Channels deliver every value exactly once, in order, within capacity',
    units=[dict(harness='c01_channel.cpp', src=['state.cpp', 'rf_task.cpp']), dict(harness='c01_ring.cpp', slow=['ring_p.*'])],
    witness=[dict(src='channel.cpp')],
    assumptions=['element types exercised: uint64_t (plain storage), a move-only type (std::optional storage) and bool (semaphore_t, multi-thread variant); other element types instantiate the same templates'])
P['C02'] = dict(
    title='Channel operations wait only when they must and are woken exactly once',
    units=[dict(harness='c01_channel.cpp', src=['state.cpp', 'rf_task.cpp'])],
    witness=[dict(src='channel.cpp')],
    assumptions=['a scheduled waiter is eventually resumed by its scheduler (C10)'])

E_SRC = ['state.cpp', 'rf_task.cpp', 'event_v2.cpp', 'timer.cpp']
P['C03'] = dict(
    title='Event signals are never lost, duplicated or invented',
    units=[dict(harness='c03_event.cpp', src=E_SRC)],
    witness=[dict(src='event.cpp')],
    assumptions=['a waiter is any implementation of the waiter interface (its own contract: C04)', 'waiting for any one of several events at once (wait_any) is outside the property'])
P['C04'] = dict(
    title='A timed event wait has exactly one outcome',
    units=[dict(harness='c04_timed.cpp', src=E_SRC), dict(harness='c03_event.cpp', src=E_SRC, only='(suspend|ready)_timed|valid_wait_resume|abandon_.*|signal')],
    witness=[dict(src='event.cpp')],
    assumptions=['the timer calls a registered handler once, with "elapsed" or "canceled" (C09)'])
P['C05'] = dict(
    title='Waiting for all of several events completes when and only when all fired',
    units=[dict(harness='c05_all.cpp', src=E_SRC, slow=['whole_.*'])],
    witness=[dict(src='event.cpp'), dict(src='event.cpp', san='thread', flags=['-DHANDOVER_ONLY'])],
    assumptions=['the events of the set are distinct', 'the lock set of the wait is taken and given back as a whole: the algorithm by C08, the guard around it here', 'the timer calls a registered handler once, with "elapsed" or "canceled" (C09)', 'a task that is woken may run, and let go of its wait, at once (modelled at the hand-over); its scheduler resumes it (C10)',
                 'sets of any number of events for the wait, the signal and the time-out; whole runs for two and three events, with every order of signals and time-out'])
P['C16'] = dict(
    title='The spin lock gives mutual exclusion',
    units=[dict(harness='c16_spin.cpp')],
    witness=[dict(src='spin.cpp', san='thread'), dict(src='spin.cpp')],
    assumptions=['rely-guarantee over the single atomic lock word; memory orders are checked for acquire on taking and release on freeing the lock, the meaning of those orders is the C++ memory model (trusted)',
                 'sched_yield and nanosleep return (trusted); progress of a waiting lock() is not claimed'])
_STOP = ['rely-guarantee over the packed state word: other threads only add or give up their own references, request stop while a source exists, and take or free the lock; each step of the code is checked against the same guarantee',
         'fewer than 2^29 tokens and 2^29 sources at a time (31-bit fields)', 'the caller of request_stop keeps its source alive during the call; progress of a waiting thread is not claimed']
P['C14'] = dict(
    title='Stop is requested once and every stop callback runs exactly once or never',
    units=[dict(harness='c14_stop.cpp', src=['rf_task.cpp'], only='request_stop|add_.*|remove_.*|queries|word_layout|task_source|make_callback')],
    witness=[dict(src='stop.cpp', leaks=True), dict(src='stop.cpp', san='thread')],
    assumptions=_STOP)
P['C15'] = dict(
    title='The stop state lives exactly as long as a source, token or callback needs it',
    units=[dict(harness='c14_stop.cpp', src=['rf_task.cpp'])],
    witness=[dict(src='stop.cpp', leaks=True)],
    assumptions=_STOP)
P['C20'] = dict(
    title='A generator yields its values in order and ends cleanly',
    units=[dict(harness='c20_generator.cpp', src=['state.cpp', 'rf_task.cpp'])],
    witness=[dict(src='generator.cpp', leaks=True)],
    assumptions=['a generator body is any function behind the coroutine frame that either yields or returns at each step (value type int); one compiled body with up to two yields is executed as well',
                 'an exception that leaves a generator body ends the program (documented in the code) and is outside the property'])
_ST = ['result types exercised: uint64_t, a move-only object, a reference and void; other types instantiate the same templates',
       'one awaiting task per result (a second one waiting on the same result is not supported by the library); a coroutine is either started as a task or awaited, once',
       'a coroutine that is never started nor awaited keeps its frame (documented design), outside the property',
       '_scheduler is written without a lock by the awaiting task and read by the completing one: either value leads to the same outcome (proved for both), the data race itself is assumed benign']
P['C12'] = dict(
    title='A future delivers its result or exception to its awaiter exactly once',
    units=[dict(harness='c12_state.cpp', src=['state.cpp', 'rf_task.cpp'], only='set_.*|throw_.*|await_.*|result_.*|resume|initial_.*|final_.*|promise_.*|awaitable_.*|compiled_.*')],
    witness=[dict(src='future.cpp', leaks=True)],
    assumptions=_ST)
P['C13'] = dict(
    title='Shared coroutine state is freed exactly once, when its last holder lets go',
    units=[dict(harness='c12_state.cpp', src=['state.cpp', 'rf_task.cpp'], only='cp_.*|free_.*|new_holder|objects_.*|frame_.*|set_.*|awaitable_.*|compiled_.*|result_.*|final_.*')],
    witness=[dict(src='future.cpp', leaks=True)],
    assumptions=_ST)
_SC = ['std::unordered_map is its contract harness/vc_umap.h (trusted): a finite map of unknown content; std::vector growth and the vector of stop sources are contracts (trusted)',
       'run_one_batch is called by one thread at a time and not from inside a task (documented); every number of ready states, registered tasks and concurrent hand-overs is covered',
       'a task that is started is not already registered']
_S_SRC = ['scheduler.cpp', 'rf_task.cpp', 'state.cpp', 'timer.cpp']
_S_ALL = ['-include', 'vc_umap.h']
P['C10'] = dict(
    title='The scheduler resumes every ready task exactly once, in order',
    units=[dict(harness='c10_sched.cpp', src=_S_SRC, all=_S_ALL, only='add|new_task|batch|until_notask|empty|find|yield_|current|whole_task')],
    witness=[dict(src='sched.cpp', leaks=True)],
    assumptions=_SC)
P['C11'] = dict(
    title='A task stays alive until it finishes and is released exactly once',
    units=[dict(harness='c10_sched.cpp', src=_S_SRC, all=_S_ALL, only='new_task|finish|leave|enter|find|switch_.*|via|stop_all|whole_task|sched_life'),
           dict(harness='c12_state.cpp', src=['state.cpp', 'rf_task.cpp'], only='final_.*|resume|compiled_.*'),
           dict(harness='c20_generator.cpp', src=['state.cpp', 'rf_task.cpp'], only='task.*|gen_resume.*')],
    witness=[dict(src='sched.cpp', leaks=True), dict(src='future.cpp', leaks=True)],
    assumptions=_SC + ['a coroutine is either started as a task or awaited, once'])
P['C19'] = dict(
    title="Each thread's current scheduler is the one it last installed and is still alive",
    units=[dict(harness='c10_sched.cpp', src=_S_SRC, all=_S_ALL, only='local_.*|sched_life')],
    witness=[dict(src='sched.cpp', leaks=True)],
    assumptions=['a thread-local variable is one object per thread (trusted); the scheduler given to a local scheduler object outlives its use'])
_T = ['std::multimap is its contract harness/vc_mmap.h (trusted): entries of unknown number in key order; std::vector growth in place (trusted); the system clock never goes back',
      'timers are stopped, updated and cleared on one thread at a time (adding is safe from any thread and proved so); update is not called from inside a handler; no handler adds a timer to a manager that is being destroyed',
      'due times within 2^61 ns of the epoch (no overflow of the 64-bit clock)']
P['C09'] = dict(
    title='Timers fire exactly once, in due order, never early, and never after cancellation',
    units=[dict(harness='c09_timer.cpp', src=['timer.cpp'], all=['-include', 'vc_mmap.h'])],
    witness=[dict(src='timers.cpp', leaks=True)],
    assumptions=_T)
P['C21'] = dict(
    title='A sleeping task wakes exactly once, not before its time',
    units=[dict(harness='c21_sleep.cpp', src=['sleep.cpp', 'state.cpp', 'rf_task.cpp', 'timer.cpp'])],
    witness=[dict(src='timers.cpp', leaks=True)],
    assumptions=['timers are their contract (C09); the state and its delivery are C12', 'due times within 2^61 ns of the epoch (no overflow of the 64-bit clock)'])
_MX = ['counts below 2^40; std::list is the real one, its three linking primitives from libstdc++.so are contracts (trusted)', 'a waiting task is not destroyed while it waits; the mutex outlives its waiters (documented)',
       'the caller of a function that takes an owner address uses that address in one thread at a time; progress of a waiting lock(address) is not claimed']
_M_SRC = ['mutex_v2.cpp', 'event_v2.cpp', 'state.cpp', 'rf_task.cpp', 'timer.cpp']
P['C06'] = dict(
    title='A mutex has at most one owner and unlocks only for it',
    units=[dict(harness='c06_mutex.cpp', src=_M_SRC, only='try_.*|is_locked|lock_address.*|unlock.*|await_.*|ctor|guard')],
    witness=[dict(src='mutex.cpp', leaks=True)],
    assumptions=_MX)
P['C07'] = dict(
    title='Unlocking hands a mutex to the longest-waiting live waiter, exactly once',
    units=[dict(harness='c06_mutex.cpp', src=_M_SRC, only='unlock.*|await_unlock|await_timed|await_manual|notify|timeout|timer_callback|resume_waiter')],
    witness=[dict(src='mutex.cpp', leaks=True)],
    assumptions=_MX + ['the timer calls a registered handler once, with "elapsed" or "canceled" (C09)', 'a scheduled task is resumed by its scheduler (C10)'])
P['C08'] = dict(
    title='Locking several mutexes at once is all-or-nothing',
    units=[dict(harness='c08_locks.cpp', src=_M_SRC), dict(harness='c06_mutex.cpp', src=_M_SRC, only='guard')],
    witness=[dict(src='mutex.cpp', leaks=True)],
    assumptions=['a single lock, try_lock and unlock behave as C06 and C07 say (their contracts stand for them in the algorithm; the whole runs use the real ones)', 'the mutexes of the set are distinct', 'an awaited step of the coroutine instance completes and gives its result as C12 says (its contract is a completed future); the tasks themselves are resumed by their scheduler (C10)',
                 'sets of any size for the algorithm and for the guards; the variadic operations for two, three and four mutexes; whole runs for two and three, with any part of them held by somebody else at first and given back in any order', 'giving way between attempts (this_thread::yield, rand) lets others run and nothing else'])
_W = ['operation types exercised: futures of uint64_t, bool, void and a reference, whole tasks, hand-made awaitables; other types instantiate the same templates; tuples of up to four operations, ranges of any length',
      'an operation that ends with an exception never completes the combination (documented limit), outside the property', 'the result is kept until its operations have ended',
      'the operations themselves complete as C12 says']
_W_SRC = ['when_v2.cpp', 'state.cpp', 'rf_task.cpp']
_W_WIT = [dict(src='when.cpp', leaks=True), dict(src='when.cpp', san='thread', flags=['-DHOPS_ONLY'])]
P['C17'] = dict(
    title='when_all finishes after all of its tasks, with every result in place',
    units=[dict(harness='c17_when.cpp', src=_W_SRC, only='notify|resume_when|wait_.*|result_all|all_.*|whole_all.*')],
    witness=_W_WIT,
    assumptions=_W)
P['C18'] = dict(
    title='when_any finishes with the first completed task and ignores the rest',
    units=[dict(harness='c17_when.cpp', src=_W_SRC, only='notify|resume_when|wait_any|result_any|any_.*|whole_any.*')],
    witness=_W_WIT,
    assumptions=_W)
NA = {}
