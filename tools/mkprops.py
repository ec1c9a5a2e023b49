#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
I = "include/boost/thread/"
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

SF = ["schedules", "fault_sequences"]
SIF = ["schedules", "inputs", "fault_sequences"]

prop("C01", "mutex and timed_mutex: exclusion, visibility, no stranded waiter",
 "At most one thread at a time owns a boost::mutex or boost::timed_mutex, whichever of lock, try_lock, the timed acquisitions and their RAII wrappers obtained it, and everything done before an unlock is visible after the next acquisition. try_lock never blocks, and succeeds on a mutex no one owns or wants; a timed acquisition fails only after its deadline. Whenever the owner unlocks, some blocked acquirer eventually obtains the mutex.",
 SIF, "every interleaving of lock/try_lock/timed acquisition/unlock by any number of threads, with spurious wakeups, EINTR and failing primitives",
 "The tests in test/test_mutex.cpp and test/sync/mutual_exclusion run two or three real threads with sleeps: one schedule each, no spurious wakeup, no timeout racing an unlock.",
 [I+"pthread/mutex.hpp", I+"lock_types.hpp", I+"lock_guard.hpp", I+"pthread/pthread_helpers.hpp"],
 [("mutex::lock / try_lock / unlock over pthread_mutex_t", I+"pthread/mutex.hpp"), ("timed_mutex is_locked + condition variable", I+"pthread/mutex.hpp")],
 ["return value of every acquisition", "who is inside the critical section", "accesses to data guarded by the mutex"],
 [("is_locked", "timed_mutex is owned", I+"pthread/mutex.hpp")])

prop("C02", "recursive mutexes: owner re-entry, exclusion until the last unlock",
 "A recursive_mutex or recursive_timed_mutex can be re-acquired any number of times by the thread that owns it without blocking, by every acquisition form, and it excludes all other threads until it has been unlocked exactly as many times as it was acquired. Everything the owner did is visible to the next owner. After the last unlock some blocked acquirer eventually obtains it; a timed acquisition fails only after its deadline.",
 SIF, "every interleaving of nested lock/try_lock/timed acquisition/unlock by any number of threads, any nesting depth",
 "The tests nest two levels in one thread on one schedule; nothing samples the release by one thread racing acquisition by others at depth > 1.",
 [I+"pthread/recursive_mutex.hpp"],
 [("count/owner/is_locked under an internal mutex", I+"pthread/recursive_mutex.hpp")],
 ["return value of every acquisition", "who is inside", "accesses to guarded data"],
 [("owner,count", "owning thread and depth", I+"pthread/recursive_mutex.hpp")])

prop("C03", "shared_mutex: shared/upgrade/exclusive compatibility and progress",
 "On a boost::shared_mutex an exclusive owner excludes everyone, an upgrade owner excludes exclusive and other upgrade owners but not shared owners, and shared owners exclude only exclusive owners, for every blocking, try and timed way of acquiring, with everything done under one ownership visible to later conflicting owners. A failed try or timed acquisition leaves no trace: it neither owns the mutex nor keeps others out, and a timed one fails only after its deadline. Once the current owners release, every blocked acquirer eventually gets in, readers and writers alike; and readers that arrive after a waiting writer (or a waiting upgrade owner) cannot keep it out for ever by overlapping one another.",
 SIF, "every interleaving of shared, upgrade and exclusive acquisition, try, timed and release by any number of threads, including timeouts and interruption requests at any point",
 "The tests count readers and writers on a handful of sleep-driven schedules; they do not reach a timed writer giving up while readers drain, spurious wakeups, or release races.",
 [I+"pthread/shared_mutex.hpp", I+"lock_types.hpp", I+"shared_lock_guard.hpp"],
 [("state_data and shared_cond/exclusive_cond/upgrade_cond", I+"pthread/shared_mutex.hpp")],
 ["ownership set over time", "return value of every acquisition", "quiescence: no thread left blocked"],
 [("state", "shared_count, exclusive, upgrade, exclusive_waiting_blocked", I+"pthread/shared_mutex.hpp")])

prop("C04", "shared_mutex conversions are atomic and never lose ownership",
 "Converting ownership of a boost::shared_mutex (upgrade to exclusive, exclusive to upgrade or shared, upgrade to shared, and the try/timed shared-to-upgrade, shared-to-exclusive and upgrade-to-exclusive forms, directly or by moving lock objects) never lets another thread obtain exclusive ownership in between, so what the owner read before the conversion still holds after it. A try or timed conversion that fails leaves the caller with exactly the ownership it had, a timed one waits no less than its deadline before failing. The compatibility rules hold throughout, and every thread that the conversion lets in eventually gets in.",
 SIF, "every interleaving of conversions with readers, writers and other converters",
 "The conversion tests are single-threaded or two-threaded with sleeps; concurrent converters, timeouts and wakeups of waiting readers are unsampled.",
 [I+"pthread/shared_mutex.hpp", I+"lock_types.hpp"],
 [("unlock_upgrade_and_lock, unlock_and_lock_upgrade, unlock_and_lock_shared, unlock_upgrade_and_lock_shared, try_unlock_*", I+"pthread/shared_mutex.hpp"), ("moves between unique_lock, upgrade_lock and shared_lock", I+"lock_types.hpp")],
 ["version counter written only by exclusive owners", "ownership set", "quiescence"])

prop("C05", "v2 shared_mutex/upgrade_mutex keep the same guarantees",
 "With BOOST_THREAD_V2_SHARED_MUTEX, boost::shared_mutex (upgrade_mutex) and thread_v2::shared_mutex obey the same rules: exclusive owners exclude everyone, at most one upgrade owner, conversions are atomic, failed try or timed acquisitions and conversions leave ownership as it was. A thread that gives up because of a timeout or is interrupted keeps no one else out. Once owners release, every blocked acquirer eventually gets in, and readers that arrive after a waiting writer cannot keep it out for ever by overlapping one another.",
 SIF, "every interleaving of acquisitions, conversions, timeouts, interruption requests and releases",
 "One or two tests compile the v2 header with sleeps; timeouts of a waiting writer among waiting readers and readers leaving during a timed conversion are unsampled.",
 [I+"v2/shared_mutex.hpp"],
 [("two-gate algorithm on state_", I+"v2/shared_mutex.hpp")],
 ["ownership set", "return values", "quiescence"],
 [("state_", "write_entered_, upgradable_entered_, n_readers_", I+"v2/shared_mutex.hpp")])

prop("C06", "condition_variable: no lost notification, atomic wait, lock re-held",
 "A thread that waits on a boost::condition_variable releases its lock and becomes a waiter in one step: a notification sent after it released the lock is not lost, notify_one wakes at least one of the waiting threads and notify_all wakes them all. Every wait, timed wait and predicate form returns (normally or by exception) with the lock held by the caller, and a predicate form returns true exactly when the predicate held under the lock. Waits may wake spuriously but predicate waits never return early because of it.",
 SIF, "every interleaving of waits, timed waits, notifications, interruption and spurious wakeups",
 "The condition tests use one waiter or a few with sleeps; the window between releasing the user lock and blocking is never sampled.",
 [I+"pthread/condition_variable.hpp", I+"pthread/condition_variable_fwd.hpp", I+"detail/platform_time.hpp"],
 [("internal_mutex + lock_on_exit guard", I+"pthread/condition_variable.hpp"), ("interruption_checker", I+"pthread/thread_data.hpp")],
 ["lock ownership after each wait", "predicate values", "no waiter blocked after a notification it was entitled to"])

prop("C07", "condition_variable_any: the same guarantees with any lock type",
 "condition_variable_any gives the guarantees of condition_variable with every lock type (unique_lock of any mutex, shared_lock, upgrade_lock, recursive locks, user-defined lockables): a wait releases and blocks in one step with respect to notifications sent under the lock or after it, notify_one wakes at least one waiter, notify_all all of them. The lock is held again whenever a wait returns or throws, and predicate waits return true exactly when the predicate held. No notification is lost between the release of the user's lock and the wait.",
 SIF, "every interleaving of waits with different lock types, notifications, timeouts and interruption",
 "The tests exercise one waiter with unique_lock<mutex>; shared_lock waiters and user lockables racing notifications are not covered.",
 [I+"pthread/condition_variable.hpp"],
 [("internal mutex taken before the user's lock is released", I+"pthread/condition_variable.hpp")],
 ["lock ownership after each wait", "waiters left blocked"])

prop("C08", "Timed operations: never early, always in the end, whatever the clock",
 "No timed operation (condition variable waits, timed lock acquisition, sleep_for/sleep_until/sleep, thread join with a deadline, future waits, timed queue pulls, with chrono steady or system clock, boost::system_time or relative durations) reports a timeout before its deadline on the clock it was given has passed, and each one returns once the deadline has passed even if nothing else happens. Deadlines in the past, at the epoch or before it time out at once, and very long ones do not return early. Jumps of the system clock do not shorten steady-clock or relative waits or make a system-clock wait hang past its deadline.",
 SIF, "every deadline value, clock, clock-jump sequence and schedule",
 "test_time_jumps needs real clock changes and is skipped; the other tests measure one deadline each with real sleeps.",
 [I+"detail/platform_time.hpp", I+"pthread/condition_variable_fwd.hpp", I+"pthread/condition_variable.hpp", I+"pthread/mutex.hpp", I+"pthread/recursive_mutex.hpp", "src/pthread/thread.cpp", I+"detail/thread.hpp", I+"futures/future_status.hpp"],
 [("conversion of every deadline to the internal clock, polling for non-internal clocks", I+"detail/platform_time.hpp"), ("hidden::sleep_for_internal / sleep_until", "src/pthread/thread.cpp")],
 ["return value and simulated clock at return"])

prop("C09", "Interruption: delivered once, only at enabled points, never lost",
 "An interruption requested with thread::interrupt is delivered as exactly one thread_interrupted exception at the target's next (or current) interruption point reached with interruption enabled, never elsewhere, and stays pending until then; blocked waits, sleeps and joins wake promptly for it. While a disable_interruption is in force nothing is delivered, restore_interruption re-enables exactly within its scope, and nesting restores the former state. Mutex acquisition is never an interruption point, and a condition wait that is interrupted re-acquires its lock first.",
 SF, "every position of one or more interrupt calls relative to the target's execution",
 "The tests interrupt a thread that is already sleeping or has not started; requests landing between the check and the block are unsampled.",
 [I+"pthread/thread_data.hpp", "src/pthread/thread.cpp", I+"pthread/condition_variable.hpp", I+"interruption.hpp"],
 [("interruption_checker publishing current_cond under data_mutex", I+"pthread/thread_data.hpp"), ("thread::interrupt broadcasting on current_cond", "src/pthread/thread.cpp")],
 ["thread_interrupted exceptions", "interruption_requested()", "threads left blocked after interrupt"],
 [("interrupt_requested,current_cond,cond_mutex", "pending request and where to wake", I+"pthread/thread_data.hpp")])

prop("C10", "Thread life cycle: run once, join means finished, failures leave nothing",
 "Creating a boost::thread runs the callable exactly once, with its own copies of callable and arguments, in a new thread for which everything before the creation is visible; join (and a successful timed or try join) returns only after the callable and the thread's exit handlers finished, with their effects visible. Joining or detaching makes the object not-a-thread, any mix of move, swap, detach and concurrent handles runs and destroys the callable and its state exactly once, and an uncaught thread_interrupted ends just that thread. If the system cannot start a thread, thread_resource_error is thrown, the callable does not run, nothing leaks and the program can go on.",
 SIF, "every interleaving of parent and child, and every failure of thread creation or allocation",
 "The tests start one thread on a healthy system; creation failure, parents racing detach or timed joins against the exit of the child are unsampled.",
 [I+"detail/thread.hpp", "src/pthread/thread.cpp", I+"pthread/thread_data.hpp"],
 [("thread_data self reference released by thread_proxy", "src/pthread/thread.cpp"), ("done/join_started/joined protocol", "src/pthread/thread.cpp")],
 ["number of runs, copies and destructions of the callable", "joinable()/get_id()", "memory left allocated"],
 [("done,join_started,joined", "life-cycle state", I+"pthread/thread_data.hpp")])

prop("C11", "scoped threads, thread_guard and thread_group end what they own",
 "A scoped_thread, strict_scoped_thread or thread_guard applies its action (join, detach, interrupt-and-join, terminate) exactly once when it is destroyed or overwritten, on every path including exceptions and pending interruption, so that with the default action the thread has finished when the scope is left. thread_group::join_all returns only after every thread in the group finished, interrupt_all reaches every member, create/add/remove/size/is_thread_in agree with each other when used concurrently, and destroying the group frees each member once. Moving a scoped_thread transfers the obligation.",
 SIF, "every interleaving of group operations, member exit, exceptions and interruption of the owner",
 "Each test uses one thread that sleeps; concurrent group operations and owner interruption are unsampled.",
 [I+"scoped_thread.hpp", I+"thread_functors.hpp", I+"thread_guard.hpp", I+"detail/thread_group.hpp"],
 [("destructor runs CallableThread with interruption disabled", I+"scoped_thread.hpp"), ("shared_mutex around the member list", I+"detail/thread_group.hpp")],
 ["whether the thread finished when the scope is left", "members and size of the group"])

prop("C12", "thread_specific_ptr: private per thread, each value cleaned up once",
 "A value stored through a thread_specific_ptr is seen only by the thread and pointer object that stored it. Its cleanup function runs exactly once - on reset to another value, at thread exit (also for values stored by other cleanups), or when the pointer object is destroyed by that thread - runs in the owning thread, and never after release. A new pointer object never sees values of a destroyed one.",
 SIF, "every interleaving of threads that store, reset, release and exit, and every order of pointer creation and destruction",
 "test_tss runs a few threads with one pointer; cleanups that store again, interleaved exits and reuse of addresses are unsampled.",
 [I+"tss.hpp", "src/pthread/thread.cpp"],
 [("per-thread tss map and run_thread_exit_callbacks / tls_destructor", "src/pthread/thread.cpp")],
 ["get() of every thread", "cleanup calls: count, argument, thread"])

prop("C13", "At-thread-exit actions happen once, after the thread's own work",
 "Functions registered with this_thread::at_thread_exit run exactly once in their thread when it ends, normally or by interruption, also when registered by other exit functions, and before a join returns. This holds on every thread that ends, whether boost::thread started it or not. notify_all_at_thread_exit releases the lock and notifies all waiters, and set_value_at_thread_exit, set_exception_at_thread_exit and make_ready_at_thread_exit make the shared state ready, exactly once and not before the thread has ended its thread-specific cleanup; before that point no waiter sees it ready. A thread that waits for such a notification or future is always woken.",
 SIF, "every interleaving of exiting threads, waiters and owners of the thread object",
 "The tests run one detached thread; joining order, several registrations and waiters racing the exit are unsampled.",
 ["src/pthread/thread.cpp", I+"pthread/thread_data.hpp", I+"future.hpp", I+"detail/thread.hpp"],
 [("thread_exit_callbacks list, notify and async_states_ in thread_data_base", "src/pthread/thread.cpp")],
 ["calls of the exit functions", "readiness of futures over time", "waiters left blocked"])

prop("C14", "call_once: exactly one success, retried after exceptions, visible to all",
 "For a once_flag, the function of exactly one call_once call completes normally, no two calls run their function at the same time, and every call_once on the flag returns only after that completion, with its effects visible. If a call throws, the exception reaches its caller, the flag stays unset, and another (waiting or later) call runs its function; no waiter is left behind. This holds for each build of the library (atomic and non-atomic implementation) and every argument form.",
 SIF, "every interleaving of concurrent callers and every pattern of throwing calls",
 "The tests start a few real threads on one flag; the retry-after-exception wakeup and the fast path's memory ordering cannot be sampled on x86.",
 [I+"pthread/once_atomic.hpp", I+"pthread/once.hpp", "src/pthread/once_atomic.cpp", "src/pthread/once.cpp", I+"once.hpp"],
 [("uninitialized/in_progress/initialized atomic states with once_mutex and once_cv", "src/pthread/once_atomic.cpp"), ("epoch counter per thread", I+"pthread/once.hpp")],
 ["runs of the function", "what each caller sees on return"])

prop("C15", "barrier: nobody passes early, everybody passes, one leader per round",
 "For a barrier of n, no thread returns from the k-th round's wait before n threads have entered that round, and then all n return, round after round without mixing rounds, with everything done before entering visible after returning. Exactly one wait per round returns true (the bool form), and a completion function runs exactly once per round, after all n arrived and before any is released; the value it returns sizes the next round. Waking spuriously releases nobody.",
 SIF, "every interleaving of threads over any number of rounds and barrier sizes",
 "test_barrier runs a few rounds on real threads and checks a counter at the end only.",
 [I+"barrier.hpp"],
 [("m_count and m_generation under a mutex", I+"barrier.hpp")],
 ["enter/leave history", "return values", "completion calls"],
 [("m_generation", "round number", I+"barrier.hpp")])

prop("C16", "latch and completion_latch open exactly at zero",
 "Waiters on a latch return (and try_wait or a timed wait reports success) only after the count reached zero, and once it has, every waiter returns and every later wait returns at once; count_down, count_down_and_wait and signalling while waiting never lose a count. A timed wait that reports failure did not do so before its deadline. For a completion_latch (whose opening is a rendezvous with at least one waiter) the completion function runs exactly once per opening, after the count reached zero, its waiters return only once the count reached zero, with everything done before the counting down visible, and an interrupted waiter neither opens nor blocks it.",
 SIF, "every interleaving of counting, waiting, timed waiting and resetting threads",
 "The tests count down from 10 on real threads once; timed waits racing the last count are unsampled.",
 [I+"latch.hpp", I+"completion_latch.hpp", I+"detail/counter.hpp"],
 [("count_ and generation_ under mutex_ with cond_", I+"latch.hpp"), ("waiters_/leavers_ counters", I+"completion_latch.hpp")],
 ["history of counts and returns", "return values"])

prop("C17", "sync_queue and sync_deque are linearizable FIFO/deque with close",
 "Concurrent operations on a sync_queue or sync_deque (and on the type-erased queue and deque adaptors and views over them) behave as if each took effect at one instant on a plain queue or deque: every accepted element is delivered exactly once, in order. A blocked pull returns as soon as there is an element for it or the queue is closed; after close, pushes are refused and elements already in the queue can still be pulled, then pulls report closed. An operation that throws leaves the queue unchanged.",
 SIF, "every interleaving of producers, consumers and closers, every mix of blocking, non-blocking and waiting operations",
 "The tests are single-threaded or start one producer and one consumer; order and exactly-once under races are not checked.",
 [I+"concurrent_queues/sync_queue.hpp", I+"concurrent_queues/sync_deque.hpp", I+"concurrent_queues/detail/sync_queue_base.hpp", I+"concurrent_queues/detail/sync_deque_base.hpp", I+"concurrent_queues/queue_adaptor.hpp", I+"concurrent_queues/deque_adaptor.hpp", I+"concurrent_queues/queue_views.hpp", I+"concurrent_queues/deque_views.hpp"],
 [("mtx_, cond_, closed_ in the queue base", I+"concurrent_queues/detail/sync_queue_base.hpp")],
 ["history of operations with results", "operations left blocked"])

prop("C18", "sync_bounded_queue: linearizable, never over capacity, close wakes all",
 "Concurrent operations on a sync_bounded_queue behave as if each took effect at one instant on a FIFO queue that never holds more than its capacity; size, empty, full and capacity report that queue. A push blocked on a full queue proceeds once there is room, a pull blocked on an empty one once there is an element, and close wakes all of them: pushes are refused, remaining elements can still be pulled, then pulls report closed. No element is lost, duplicated or reordered, and an operation that throws leaves the queue unchanged.",
 SIF, "every interleaving of producers, consumers and closers, every capacity and mix of operations",
 "The tests run one producer against one consumer; wrap-around with several waiters and close during blocking pushes are unsampled.",
 [I+"concurrent_queues/sync_bounded_queue.hpp"],
 [("ring buffer in_/out_ with waiting_full_/waiting_empty_ counters", I+"concurrent_queues/sync_bounded_queue.hpp")],
 ["history of operations with results", "operations left blocked"],
 [("in_,out_", "ring positions", I+"concurrent_queues/sync_bounded_queue.hpp")])

prop("C19", "Priority and timed queues: best or due element first, exactly once",
 "Concurrent operations on a sync_priority_queue behave as if each took effect at one instant on a priority queue: a pull gets a greatest element, each element exactly once. A sync_timed_queue never delivers an element before its time, delivers due elements in the order of their times, and a blocked pull wakes when the earliest element becomes due, also when that element arrives later than others; timed pulls fail only after their deadline. close wakes every blocked pull and refuses later pushes.",
 SIF, "every interleaving of producers, consumers and closers, every set of priorities and times, clock jumps",
 "The tests use one or two threads and real sleeps; an earlier element arriving while a consumer sleeps for a later one is sampled on one schedule.",
 [I+"concurrent_queues/sync_priority_queue.hpp", I+"concurrent_queues/sync_timed_queue.hpp"],
 [("heap under mtx_ with notify_all on insertion", I+"concurrent_queues/sync_priority_queue.hpp"), ("not_empty_and_time_reached and bounded waits", I+"concurrent_queues/sync_timed_queue.hpp")],
 ["history of operations with results and simulated clock"])

prop("C20", "promise/future: one result, seen by every waiter, or broken_promise",
 "The shared state of a promise becomes ready at most once, with the one value, reference or exception stored first; every later attempt reports promise_already_satisfied (and every wrong use its documented error) and changes nothing. Every future and shared_future waiting or waiting later, with or without deadline, is released and sees that result with everything that happened before it was set, and a promise destroyed unsatisfied gives broken_promise. A future delivers its result once and is then invalid (or reports its state as documented), shared_futures deliver it any number of times; nothing leaks and nothing is freed while in use.",
 SIF, "every interleaving of setters, waiters, getters and destruction of either side, every result kind",
 "The tests set and get in one or two threads in a fixed order; concurrent setters, waiter lists and destruction races are unsampled.",
 [I+"future.hpp", I+"futures/future_error.hpp", "src/future.cpp"],
 [("shared_state_base done/exception/waiters under mutex", I+"future.hpp")],
 ["results and errors of every operation", "is_ready/has_value/get_state over time", "live objects"],
 [("done, exception, external_waiters", "shared state", I+"future.hpp")])

prop("C21", "packaged_task and async run the task once and deliver its outcome",
 "A packaged_task or async call runs its function at most once, and exactly once when invoked, launched or (deferred) first waited for, with the arguments it was given; its value or exception becomes the result of the future, with all its effects visible. Invoking twice, using a moved-from or empty task, or dropping one uninvoked is reported as documented (task_already_started, task_moved, broken_promise). A deferred task runs in a waiting thread and all other waiters see its one result.",
 SIF, "every interleaving of invocation, waiting, getting and destruction, launch policies, exceptions and resource failures",
 "The tests check one policy and one waiter at a time; two waiters on one deferred future and failing thread creation are unsampled.",
 [I+"future.hpp"],
 [("task_base_shared_state::run/apply and future_deferred_shared_state / future_async_shared_state", I+"future.hpp")],
 ["runs of the function", "result of every future"])

prop("C22", "Continuations run exactly once, after and with the ready antecedent",
 "The function given to future::then or shared_future::then runs exactly once after the antecedent became ready - whether attached before, after or while it becomes ready - and gets that ready antecedent, and the returned future gets its value or exception. This holds for every launch policy and executor, for chains, for unwrap of nested futures and for fallback_to. A dropped antecedent or promise reaches the end of the chain as its exception, and no stage is lost, repeated or left pending.",
 SIF, "every interleaving of attaching, fulfilling, waiting and dropping, every policy and chain",
 "The tests attach one continuation to one async future with sleeps; attaching while the antecedent becomes ready is a window of a few instructions.",
 [I+"future.hpp"],
 [("shared_state_base::continuations and do_continuation", I+"future.hpp"), ("continuation shared states, launch_continuation", I+"future.hpp")],
 ["runs of each continuation", "state of the antecedent it gets", "result of the chain"])

prop("C23", "wait_for_any/all and when_any/all: right set, right moment",
 "wait_for_all and when_all complete only when every given future is ready and deliver all of them in order; wait_for_any and when_any complete as soon as at least one is ready, wait_for_any names a ready one, and when_any delivers all futures in order with a ready one among them. Once the condition holds they always complete, whichever futures become ready, in whatever order or at the same time, deferred ones included. They leave nothing registered: the given futures work as before, and each is destroyed once.",
 SIF, "every set of futures, order and timing of their fulfilment",
 "The tests fulfil one future from one thread after a sleep; simultaneous fulfilment during registration is unsampled.",
 [I+"futures/wait_for_any.hpp", I+"futures/wait_for_all.hpp", I+"future.hpp"],
 [("waiter_for_any_in_seq with all futures' locks", I+"futures/wait_for_any.hpp"), ("future_when_all/any shared states", I+"future.hpp")],
 ["returned index or futures", "readiness at return", "calls left blocked"])

prop("C24", "Executors run every accepted task exactly once",
 "A task accepted by an executor (basic_thread_pool, thread_executor, loop_executor, user_scheduler, inline_executor, directly or through executor_adaptor, generic_executor_ref or executor-taking async) runs exactly once, with everything before its submission visible to it, and has completed when the executor's destructor returns (for loop_executor and user_scheduler: when the loop that drains it returns). After close, submissions throw sync_queue_is_closed and their task never runs, while accepted tasks still run; closed() tells the truth. try_executing_one runs at most one task and reports whether it did, and a pool whose threads cannot be created fails cleanly.",
 SIF, "every interleaving of submitters, workers, close and destruction, every number of workers, resource failures",
 "The tests submit a few tasks and sleep; destruction right after submission and close racing submission are unsampled.",
 [I+"executors/basic_thread_pool.hpp", I+"executors/thread_executor.hpp", I+"executors/loop_executor.hpp", I+"user_scheduler.hpp", I+"executors/inline_executor.hpp", I+"executors/executor_adaptor.hpp", I+"executors/generic_executor_ref.hpp", I+"executors/work.hpp"],
 [("sync_queue<work> drained by workers; close then join in the destructor", I+"executors/basic_thread_pool.hpp")],
 ["runs of each task", "exceptions of submit", "tasks pending after destruction"])

prop("C25", "Serial executors run tasks one at a time, in submission order",
 "A serial_executor or serial_executor_cont over any underlying executor runs every accepted task exactly once, never two at the same time, in the order of submission, with each task's effects visible to the next. A task that throws does not stop later tasks of a serial_executor. After close, submissions are refused; their destructors return only after all accepted tasks completed.",
 SIF, "every interleaving of submitters, underlying workers, close and destruction",
 "The tests submit from one thread to a pool and print; overlap and order are not checked.",
 [I+"executors/serial_executor.hpp", I+"executors/serial_executor_cont.hpp"],
 [("one worker thread handing tasks to the underlying executor and waiting", I+"executors/serial_executor.hpp"), ("chain of continuations on fut_", I+"executors/serial_executor_cont.hpp")],
 ["start/end history of tasks", "exceptions of submit"])

prop("C26", "Scheduled executors run tasks when due, never before, once",
 "A task given to a scheduler, scheduled_thread_pool or scheduling_adaptor for a time or after a delay never starts before that time, starts once it is due while the executor lives and has a free thread, and runs exactly once, in order of due time on one thread - also when an earlier task is submitted while the thread sleeps for a later one. Executors derived with at, after and on submit at that time to the given executor. After close, submissions are refused (tasks not due by then may be dropped), and destruction stops the threads without running a task early or twice.",
 SIF, "every set of due times, every interleaving of submitters, clock, close and destruction",
 "The tests submit a few tasks with real delays and print; overtaking submissions and shutdown are unsampled.",
 [I+"executors/scheduler.hpp", I+"executors/scheduled_thread_pool.hpp", I+"executors/scheduling_adaptor.hpp", I+"executors/detail/scheduled_executor_base.hpp", I+"executors/detail/priority_executor_base.hpp"],
 [("sync_timed_queue of tasks drained by loop()", I+"executors/detail/priority_executor_base.hpp")],
 ["start times and runs of each task", "exceptions of submit"])

prop("C27", "Multi-lock algorithms: all or nothing, without deadlock",
 "boost::lock on two to five lockables or on a range, in whatever order each thread names them, returns holding all of them and never deadlocks, and boost::try_lock acquires all of them or, naming one it could not get, none. If acquiring one throws, those already acquired are released and the exception propagates. The same holds for the helpers built on them (make_unique_locks, lock_guards over sets), for every lockable type.",
 SIF, "every interleaving of threads naming overlapping sets in different orders, and every throwing lock operation",
 "test_generic_locks uses one contending thread and fixed orders; deadlock between opposite orders with retries needs many schedules.",
 [I+"lock_algorithms.hpp", I+"lock_factories.hpp"],
 [("try_lock_internal / lock_helper rotation", I+"lock_algorithms.hpp"), ("range_lock_guard", I+"lock_algorithms.hpp")],
 ["set of locks held on return or exception", "threads left blocked"])

prop("C28", "Lock objects release exactly what they own, on every path",
 "unique_lock, shared_lock, upgrade_lock, lock_guard, shared_lock_guard, reverse_lock, nested_strict_lock, strict_lock, upgrade_to_unique_lock, try-lock wrappers and with_lock_guard own their lockable exactly when they report it: each acquisition is released exactly once - at unlock, destruction, move-assignment or exception - by the right unlock operation, never when not owned, and release() hands ownership over. Construction with defer, adopt, try or a deadline, moves, swaps and conversions keep this true, misuse throws lock_error without touching the lockable, and a throwing lock operation leaves the object not owning. reverse_lock re-acquires on leaving its scope.",
 SIF, "every sequence of operations on lock objects over contended lockables, and every failing lock operation",
 "The tests check each constructor in isolation on an uncontended mutex; sequences under contention and failing lockables are unsampled.",
 [I+"lock_types.hpp", I+"lock_guard.hpp", I+"shared_lock_guard.hpp", I+"reverse_lock.hpp", I+"strict_lock.hpp", I+"with_lock_guard.hpp", I+"lock_factories.hpp"],
 [("is_locked flag in each lock type", I+"lock_types.hpp")],
 ["operations that reach the lockable", "owns_lock() and exceptions"])

prop("C29", "synchronized_value and monitors: every access is under the lock",
 "Every access to a value through synchronized_value (dereference, arrow, synchronize, get, assignment, swap, comparison, streaming, multi-value synchronize) or a lockable adapter with strict locks and externally_locked happens while its mutex is held, so concurrent operations are atomic and race-free, and operations on two values take both locks without deadlock. A handle that outlives the full expression keeps the lock until it is released. An operation that throws releases the lock and leaves other users able to proceed.",
 SIF, "every interleaving of operations on one or more values",
 "The synchronized_value tests are single-threaded, and cannot be built here.",
 [I+"synchronized_value.hpp", I+"lockable_adapter.hpp", I+"strict_lock.hpp", I+"externally_locked.hpp", I+"externally_locked_stream.hpp", I+"testable_mutex.hpp"],
 [("strict_lock_ptr / unique_lock_ptr / const_strict_lock_ptr", I+"synchronized_value.hpp")],
 ["accesses to the value", "results of compound operations"])

prop("C30", "Resource failures are reported and leave everything usable",
 "If an allocation or a system primitive fails inside a library operation (creating threads, mutexes, condition variables, futures, tasks, continuations, queues, thread-specific values, exit callbacks), the operation throws the documented exception (bad_alloc, thread_resource_error) or completes as if nothing failed; it does not crash, hang, leak, or leave a lock held. Objects involved, other than arguments and futures moved into the operation (then, unwrap, when_all, when_any), keep their former state, so repeating the operation once resources are back succeeds. Interrupted system calls (EINTR) are invisible to callers.",
 ["schedules", "fault_sequences", "programs"], "every position of a failing allocation or system call in every operation, on every schedule",
 "No test injects allocation or system-call failures; test_12293/EINTR paths run on a healthy system.",
 ["src/pthread/thread.cpp", I+"pthread/pthread_helpers.hpp", I+"pthread/mutex.hpp", I+"pthread/condition_variable_fwd.hpp", I+"pthread/condition_variable.hpp", I+"future.hpp", I+"concurrent_queues/sync_queue.hpp"],
 [("constructors checking pthread return codes and undoing partial work", I+"pthread/condition_variable_fwd.hpp"), ("EINTR loops", I+"pthread/pthread_helpers.hpp")],
 ["exceptions of the operation", "allocations and primitives left", "result of repeating the operation"])

prop("C31", "task_region: no task outlives its region",
 "experimental::parallel task_region and task_region_final return only after every task spawned in the region, directly or through nested regions, has completed, with all its effects visible. An exception from the body or any task reaches the caller of the region as an exception list after all tasks completed, and none is lost. wait joins the tasks spawned so far, and the region can go on spawning; once wait has reported an exception the region is cancelled, and run and wait throw task_canceled_exception.",
 SIF, "every interleaving of spawned tasks and every pattern of throwing tasks",
 "The two tests compute fib and print; exceptions from several tasks and completion order are unsampled.",
 [I+"experimental/task_region.hpp", I+"experimental/exception_list.hpp"],
 [("wait_all over the group of futures", I+"experimental/task_region.hpp")],
 ["tasks running when the region returns", "exceptions collected"])

prop("C32", "Lockable adapters keep the guarantees of the mutex they wrap",
 "Classes made lockable by lockable_adapter, timed_, shared_ and upgrade_lockable_adapter, by the poly_*_lockable_adapter templates used through their abstract poly_*_lockable bases, or by testable_mutex have the semantics of the wrapped mutex for every operation: exclusive, shared and upgrade ownership are compatible as they should be, each blocking, try and timed operation acquires the ownership it names, conversions happen without giving the data to somebody else in between, try operations do not block, timed ones neither give up early nor overstay, and no waiter is left behind. testable_mutex says that the calling thread owns it exactly while that is so.",
 ["schedules", "inputs"], "every adapter, every mix of its operations and deadlines by several threads, every interleaving",
 "The tests compile a few adapters; no test locks one from two threads.",
 [I+"lockable_adapter.hpp", I+"poly_lockable.hpp", I+"poly_lockable_adapter.hpp", I+"poly_shared_lockable.hpp", I+"poly_shared_lockable_adapter.hpp", I+"testable_mutex.hpp"],
 [("each member forwards to the member of the same name of the wrapped mutex", I+"lockable_adapter.hpp")],
 ["owners at every acquisition and conversion", "time and result of try and timed operations", "waiters left"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
print(len(P), "properties")
