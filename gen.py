#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (kept in step with props.py)"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
H = 'include/librf/src/'
def p(id, title, st, over, qt, why, files, mech, state=None, obs=None):
    d = {'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if obs:
        d['anchors']['observe_at'] = obs
    d['anchors']['hook_needed'] = None
    return d
L = []
L.append(p('C01', 'Channels deliver every value exactly once, in order, within capacity',
 'Every value whose write completes or waits is returned by exactly one read; values are read in the order in which their writes took effect; a channel never buffers more values than its capacity and a refused or waiting write loses nothing.',
 ['inputs', 'histories', 'configurations'], 'all capacities (including 0), all buffer positions and contents, all numbers of waiting readers and writers, plain, optional and multi-thread variants, any history of operations',
 'the channel tests pass a few thousand sequential integers through channels of capacity 0 and 1; they never compare order under mixed waiting readers, waiting writers and wrapped buffers',
 [H + 'channel_v2.h', H + 'channel_v2.inl', H + 'ring_queue.h', H + 'intrusive_link_queue.h'],
 [('channel_impl_v2::try_read_nolock / try_write_nolock', H + 'channel_v2.inl'), ('ring_queue::try_push / try_pop', H + 'ring_queue.h'), ('intrusive_link_queue', H + 'intrusive_link_queue.h')],
 [('_values', 'bounded FIFO of buffered values', H + 'channel_v2.inl'), ('_read_awakes / _write_awakes', 'waiting readers / writers in arrival order', H + 'channel_v2.inl')], ['co_await ch.read()', 'co_await ch.write(v)']))
L.append(p('C02', 'Channel operations wait only when they must and are woken exactly once',
 'A read waits only when no value is buffered and no writer waits, a write waits only when no reader waits and the buffer is full; waiting readers and waiting writers are served in arrival order; serving a waiter schedules exactly that waiter, exactly once, on the scheduler of its task, and no operation leaves behind a waiter that could have been served.',
 ['inputs', 'histories', 'configurations'], 'all channel states reachable by any history, any number of waiters',
 'lost or duplicate wake-ups show up only for particular combinations of waiters and buffer fill that the tests do not enumerate',
 [H + 'channel_v2.inl', H + 'intrusive_link_queue.h', H + 'scheduler.h'],
 [('awake_one_reader_ / awake_one_writer_', H + 'channel_v2.inl'), ('state_channel_t::on_notify / resume', H + 'channel_v2.inl'), ('read_awaiter / write_awaiter', H + 'channel_v2.inl')]))
L.append(p('C03', 'Event signals are never lost, duplicated or invented',
 'signal() wakes the longest-waiting task that is still waiting or, if there is none, adds one stored signal; a wait consumes one stored signal without suspending or else suspends; signal_all() wakes every waiting task and stores nothing, reset() drops the stored signals and wakes nobody.',
 ['inputs', 'histories'], 'all stored-signal counts, any number and kind (plain, timed, already finished) of waiters, any history',
 'tests exercise one or two waiters; a lost signal needs a particular mix of timed-out and live waiters',
 [H + 'event_v2.h', H + 'event_v2.inl', 'source/event_v2.cpp', H + 'intrusive_link_queue.h'],
 [('event_v2_impl::signal / signal_all / reset', 'source/event_v2.cpp'), ('event_t::awaiter', H + 'event_v2.inl')],
 [('_counter', 'stored signals', H + 'event_v2.inl'), ('_wait_awakes', 'waiting tasks', H + 'event_v2.inl')]))
L.append(p('C04', 'A timed event wait has exactly one outcome',
 'A timed wait on an event ends exactly once: either a signal wakes it and the wait returns true, or its time-out wakes it and the wait returns false; the other of the two then has no effect, and a signal that arrives after the time-out is kept for someone else.',
 ['inputs', 'histories', 'schedules'], 'all time-outs, all orders of signal, time-out and cancellation, any number of other waiters',
 'the race of signal and time-out is one interleaving at one instant; the tests sleep far away from it',
 [H + 'event_v2.inl', 'source/event_v2.cpp', 'source/timer.cpp'],
 [('state_event_t::on_notify / on_timeout / on_cancel', 'source/event_v2.cpp'), ('event_t::timeout_awaiter', H + 'event_v2.inl')]))
L.append(p('C05', 'Waiting for all of several events completes when and only when all fired',
 'A wait for all of a set of events completes successfully exactly when one signal of each event has been consumed for it, wakes its task once, and never completes while one of the events is still outstanding; with a time-out it completes exactly once, with the time-out result.',
 ['inputs', 'histories', 'schedules'], 'any number of events, any subset already signalled, any order of the remaining signals',
 'tests use a handful of events signalled in one order',
 [H + 'event_v2.inl', 'source/event_v2.cpp'], [('state_event_all_t::on_notify / on_timeout', 'source/event_v2.cpp'), ('event_t::all_awaiter', H + 'event_v2.inl')]))
L.append(p('C06', 'A mutex has at most one owner and unlocks only for it',
 'A mutex is owned by at most one owner address at a time; an owner may lock it again and owns it until it has unlocked as many times; try_lock succeeds exactly when the mutex is free or already owned by the caller; unlock by anyone else changes nothing.',
 ['inputs', 'histories', 'schedules'], 'all owners, all recursion depths, all waiter queues, any history',
 'tests take the lock from a few tasks in a fixed pattern; they do not check ownership in intermediate states',
 [H + 'mutex_v2.h', H + 'mutex_v2.inl', 'source/mutex_v2.cpp'], [('mutex_v2_impl::try_lock_lockless / unlock', 'source/mutex_v2.cpp'), ('mutex_t::lock_awaiter', H + 'mutex_v2.inl')],
 [('_owner', 'current owner', H + 'mutex_v2.inl'), ('_counter', 'recursion depth', H + 'mutex_v2.inl'), ('_wait_awakes', 'waiting tasks', H + 'mutex_v2.inl')]))
L.append(p('C07', 'Unlocking hands a mutex to the longest-waiting live waiter, exactly once',
 'When the last unlock happens and tasks wait, the mutex passes directly to the longest-waiting one that has not timed out, which is scheduled exactly once as the new owner; a waiter that timed out gets false, is never made owner, and the mutex becomes free only when no live waiter remains.',
 ['inputs', 'histories', 'schedules'], 'any number of waiters, any subset timed out, all time-outs',
 'a lost or doubled hand-off needs a time-out racing with an unlock, which the tests do not produce',
 [H + 'mutex_v2.inl', 'source/mutex_v2.cpp', 'source/timer.cpp'], [('mutex_v2_impl::unlock', 'source/mutex_v2.cpp'), ('state_mutex_t::on_notify / on_timeout', 'source/mutex_v2.cpp')]))
L.append(p('C08', 'Locking several mutexes at once is all-or-nothing',
 'Locking a set of mutexes in one operation completes only when every one of them is owned by the caller; whenever it has to wait or gives up it holds none of the others; unlocking the set, or the end, the move or the replacement of the guard that holds it, releases each exactly once.',
 ['inputs', 'histories', 'schedules'], 'any number of mutexes and owners, any subset contended',
 'tests lock two or three mutexes in fixed order; a leaked lock appears only on a particular failure position',
 [H + 'without_deadlock_assemble.inl', H + 'mutex_v2.inl', H + 'mutex_v2.h', 'source/mutex_v2.cpp'], [('_Lock_range / _Lock_nonmember2 / _Lock_nonmember3 / _Try_lock_range', H + 'without_deadlock_assemble.inl'), ('mutex_t::lock(mtxs...) / unlock(mtxs...) / batch_unlock_t', H + 'mutex_v2.inl')]))
L.append(p('C09', 'Timers fire exactly once, in due order, never early, and never after cancellation',
 'Each timer handler is called exactly once: with "elapsed" when updated at or after its due time, in order of due time, or with "canceled" after it has been stopped or cleared, and never both; no handler fires before its due time and a stopped timer never fires as elapsed.',
 ['inputs', 'histories'], 'all due times, any number of timers, any history of add, stop, update and clear, handlers that add or stop timers',
 'tests sleep a few milliseconds and look at the printed order',
 [H + 'timer.h', 'source/timer.cpp'], [('timer_manager::update / add_ / call_target_ / call', 'source/timer.cpp'), ('timer_handler', H + 'timer.h')],
 [('_runing_timers', 'timers by due time', H + 'timer.h'), ('_added_timers', 'timers added since last update', H + 'timer.h')]))
L.append(p('C10', 'The scheduler resumes every ready task exactly once, in order',
 'Every task handed to a scheduler before a batch is resumed in that batch exactly once, in hand-over order; tasks handed over during the batch are kept for the next one; none is lost, and a scheduler reports itself empty only when no task is ready, registered or timed.',
 ['inputs', 'histories', 'schedules'], 'any number of ready tasks, any tasks added while a batch runs, from any thread',
 'tests only see that programs eventually finish',
 [H + 'scheduler.h', H + 'yield.h', 'source/scheduler.cpp'], [('scheduler_t::run_one_batch / add_generator / run_until_notask', 'source/scheduler.cpp')],
 [('_runing_states / _cached_states', 'ready queue and the batch being run', H + 'scheduler.h')]))
L.append(p('C11', 'A task stays alive until it finishes and is released exactly once',
 'Starting a task registers it with its scheduler; it stays registered until its coroutine ends or is handed to another scheduler, is then unregistered exactly once from the scheduler it is registered with, and finishing it releases its resources, including the function object it was started from, exactly once; asking a scheduler to stop asks every registered task that can be stopped, once, and releases none.',
 ['histories', 'schedules'], 'any number of tasks, any order of completion, migration between schedulers',
 'a leak or double release does not fail a test that only prints',
 [H + 'scheduler.h', 'source/scheduler.cpp', 'source/rf_task.cpp', H + 'rf_task.h', H + 'switch_scheduler.h', 'source/state.cpp'], [('switch_scheduler_await_suspend', 'source/state.cpp'), ('scheduler_t::request_stop_all_if_possible', 'source/scheduler.cpp'), ('scheduler_t::new_task / del_final / add_switch / del_switch', 'source/scheduler.cpp'), ('task_t', H + 'rf_task.h')]))
L.append(p('C12', 'A future delivers its result or exception to its awaiter exactly once',
 'When a coroutine or awaitable completes with a value or an exception, the task awaiting it is scheduled exactly once and its co_await returns that value or throws that exception; awaiting a completed result does not suspend; the order of awaiting and completing does not matter.',
 ['inputs', 'histories', 'schedules'], 'all result values and exceptions, void, value and reference results, both orders of completion and await, coroutine and hand-made awaitables',
 'tests always complete in one order and never combine exceptions with hand-made awaitables of every type',
 [H + 'state.h', H + 'state.inl', 'source/state.cpp', H + 'future.h', H + 'promise.h', H + 'awaitable.h'], [('state_t::set_value / set_exception / future_await_resume', H + 'state.inl'), ('state_future_t::future_await_suspend / promise_final_suspend', H + 'state.inl')]))
L.append(p('C13', 'Shared coroutine state is freed exactly once, when its last holder lets go',
 'The state shared by promise, future, awaiter and scheduler lives as long as any of them holds it and is destroyed and deallocated exactly once, with its stored value or exception, when the last holder releases it; copying, moving, assigning and swapping holders keep this balance.',
 ['histories', 'schedules'], 'all numbers of holders, every sequence of copy, move, assign and release',
 'the tests run without leak checking and cannot see a premature free that happens to work',
 [H + 'counted_ptr.h', H + 'state.h', H + 'state.inl', 'source/state.cpp'], [('counted_ptr', H + 'counted_ptr.h'), ('state_base_t::lock / unlock', H + 'state.h'), ('destroy_deallocate', 'source/state.cpp')]))
L.append(p('C14', 'Stop is requested once and every stop callback runs exactly once or never',
 'Exactly one stop request on a shared stop state succeeds and from then on every token reports it; each registered callback runs exactly once, when the request is made or at registration if it already was, and never after its deregistration has returned.',
 ['histories', 'schedules'], 'any number of callbacks, sources and tokens, callbacks that deregister themselves or others while running',
 'deregistration during the run of a callback and multi-callback lists are not covered by the tests',
 [H + 'stop_token.h', H + 'stop_token.inl'] if os.path.exists('/repo/' + H + 'stop_token.inl') else [H + 'stop_token.h'], [('stop_state::request_stop / try_add_callback / remove_callback', H + 'stop_token.h')]))
L.append(p('C15', 'The stop state lives exactly as long as a source, token or callback needs it',
 'The shared stop state is freed exactly once, exactly when the last source, token and registered callback that refers to it is gone; whether a stop can still be requested follows the number of sources and a request already made.',
 ['histories', 'schedules'], 'all counts of sources and tokens, all orders of release, with and without callbacks and requests',
 'tests keep sources alive and never check the release',
 [H + 'stop_token.h'], [('stop_state reference packing', H + 'stop_token.h')]))
L.append(p('C16', 'The spin lock gives mutual exclusion',
 'At most one thread is between lock and unlock of the same spin lock; try_lock never waits and succeeds exactly when it obtains the lock; unlock makes what the owner wrote visible to the next owner.',
 ['schedules'], 'any number of threads and any interleaving of their atomic steps',
 'a stress test sees only the interleavings of one machine',
 [H + 'spinlock.h'], [('spinlock::lock / try_lock / unlock', H + 'spinlock.h')]))
L.append(p('C17', 'when_all finishes after all of its tasks, with every result in place',
 'when_all completes exactly once, after each of its awaited operations has completed and not before, and returns the result of operation i at position i; with no operation it completes at once.',
 ['inputs', 'histories', 'schedules'], 'any number of operations of any kind that end with a result (not with an exception), any completion order, result values',
 'the library test of when_all is compiled out with this compiler',
 [H + 'when_v2.h', 'source/when_v2.cpp'], [('state_when_t::on_notify_one / when_future_t', H + 'when_v2.h'), ('when_all_connector_1 / when_all_connector_2 / when_all_range__', H + 'when_v2.h')], [('_counter', 'operations still outstanding', H + 'when_v2.h')], ['co_await when_all(...)']))
L.append(p('C18', 'when_any finishes with the first completed task and ignores the rest',
 'when_any completes exactly once, with the index and result of the first of its operations to complete; the later ones change neither the result nor wake anyone again; with no operation it completes at once with an invalid index.',
 ['inputs', 'histories', 'schedules'], 'any number of operations that end with a result (not with an exception), any completion order, result values',
 'the tests do not complete the losers under observation',
 [H + 'when_v2.h', 'source/when_v2.cpp'], [('when_any_connector / when_any_range__', H + 'when_v2.h'), ('state_when_t::on_notify_one / when_future_t', H + 'when_v2.h')], None, ['co_await when_any(...)']))
L.append(p('C19', "Each thread's current scheduler is the one it last installed and is still alive",
 'A thread uses the default scheduler (on the thread that initialises the library it is installed from the start) until it installs one by constructing a local scheduler object (its own new scheduler, or the one it is given); constructing further ones while one is installed changes nothing. Destroying the object that created the installed scheduler destroys that scheduler and restores the default, destroying any other object changes nothing, and a destroyed scheduler is never the current one of its thread.',
 ['histories'], 'any order of construction and destruction of local scheduler objects and schedulers on any thread', 'tests make at most one per thread and never look at the current scheduler afterwards',
 [H + 'scheduler.h', 'source/scheduler.cpp'], [('local_scheduler_t', 'source/scheduler.cpp')]))
L.append(p('C20', 'A generator yields its values in order and ends cleanly',
 'Iterating a generator that yields visits exactly the yielded values and then the returned one, in order, and ends; a generator that returns without a yield is empty; the body advances one step per value asked for and not before; the coroutine frame is destroyed exactly once whatever is left unread, also when the generator object is moved or assigned.',
 ['inputs', 'histories'], 'any number of yields, any number of values consumed, moves and assignments of the generator', 'tests iterate a few fixed generators to the end',
 [H + 'generator.h'], [('generator_t / generator_iterator', H + 'generator.h')]))
L.append(p('C21', 'A sleeping task wakes exactly once, not before its time',
 'A task that sleeps until a time is resumed exactly once: normally not before that time, or with a cancellation exception when its timers are cancelled.',
 ['inputs', 'histories'], 'all wake-up times and durations, any other timers', 'tests look at rough wall-clock durations',
 [H + 'sleep.h', 'source/sleep.cpp', 'source/timer.cpp'], [('sleep_until_', 'source/sleep.cpp')]))
with open(V + '/properties.jsonl', 'w') as f:
    for d in L:
        f.write(json.dumps(d) + '\n')
checks = []
na = []
for d in L:
    i = d['id']
    if i in props.P:
        s = props.P[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'env VERIF_TIER=thorough python3-vt check.py ' + i, 'technique': 'contract-based deductive verification of the compiled real code (weakest-precondition style VCs, SMT)',
                       'level': 'proof', 'level_note': s.get('note', 'All obligations generated from the current source are discharged for every state allowed by the contracts; assumes the contracts marked trusted, atomic critical sections and a sequentially consistent memory model; see DESIGN.md.')})
    else:
        na.append({'property': i, 'reason': props.NA.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: private members are reached with -fno-access-control in the verifier build only.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
