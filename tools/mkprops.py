#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
I="include/boost/fiber/"
MTX=["src/mutex.cpp","src/timed_mutex.cpp","src/recursive_mutex.cpp","src/recursive_timed_mutex.cpp",I+"mutex.hpp",I+"timed_mutex.hpp",I+"recursive_mutex.hpp",I+"recursive_timed_mutex.hpp","src/waker.cpp"]

p("C01","Mutexes give mutual exclusion",
  "At no moment do two fibers, on the same thread or on different threads, own the same mutex (plain, timed, recursive or recursive timed), whatever mix of blocking, non-blocking and timed acquisitions is used. A non-blocking acquisition fails only while another fiber owns the mutex, and never blocks. A lock call returns only when its caller owns the mutex.",
  ["schedules","programs"],"every order in which ready fibers are resumed, every interleaving of two threads, and every sequence of lock/try_lock/timed lock/unlock/yield by 2-3 fibers",
  "test_mutex_* run a handful of fibers under round_robin on one OS schedule; the windows between unlocking, waking and being resumed are never steered.",
  MTX,[("owner handover in unlock()/lock loop","src/mutex.cpp"),("wait queue","src/waker.cpp")],["lock/unlock return points"])
p("C02","Mutex ownership errors and recursion counting",
  "Relocking a non-recursive mutex by its owner reports resource_deadlock_would_occur and unlocking by a fiber that does not own the mutex reports operation_not_permitted, and a failed call leaves the mutex exactly as it was. A recursive mutex is released only by as many unlocks as there were successful locks by its owner, by any acquisition function.",
  ["programs","inputs"],"every sequence of mutex operations up to the bound by two fibers, on all four mutex types",
  "tests try one misuse per type and at most a few recursion depths; they never check the state left behind by a failed call or mixed acquisition functions.",
  MTX,[("owner_ comparison","src/mutex.cpp"),("count_","src/recursive_mutex.cpp")],["exceptions and results of lock/try_lock/unlock"])
p("C03","A released mutex never leaves a waiter stranded",
  "If a mutex is released and fibers are blocked on it, one of them acquires it without any further action by others, so no fiber stays blocked on a mutex that nobody owns. This holds when waiters, releasers and newcomers run on different threads.",
  ["schedules"],"all resume orders of up to 3 fibers on one thread and all interleavings (within the context bound) of two threads",
  "a lost wakeup shows only as a hang in one rare schedule; tests see at most the common one.",
  MTX+["src/scheduler.cpp","src/context.cpp"],[("wait_queue::notify_one under the mutex spinlock","src/waker.cpp"),("suspend(lk): unlock after switching away","src/context.cpp")],["blocked fibers at quiescence"])
p("C04","Timed mutex acquisition: result, deadline and no side effects of giving up",
  "A timed acquisition returns true exactly when its caller owns the mutex, never returns false before its deadline, and does not go on waiting once the deadline has passed and it has been resumed. It succeeds at once when nobody else owns the mutex, even if its deadline is already past. An acquisition that gives up leaves no trace: it is no longer queued, and a release of the mutex that was handed to it is not lost for the remaining waiters.",
  ["schedules","inputs"],"all deadlines and all clock readings (symbolic, non-decreasing), all resume orders of up to 3 fibers mixing timed and untimed lockers",
  "tests use real sleeps with coarse tolerances; the races of expiry against release happen in windows of nanoseconds.",
  MTX+["src/scheduler.cpp"],[("try_lock_until_","src/timed_mutex.cpp"),("suspend_and_wait_until","src/waker.cpp")],["return value, owner and queue after the call"])
p("C05","Condition variables: no lost, spurious or surplus wakeups",
  "A wait releases the lock and blocks as one step, so a notification made by anyone holding the lock afterwards is not missed; a waiter returns only after being notified, and always owning the lock. A notification for one wakes exactly one current waiter if there is any, a notification for all wakes every current waiter, and neither has any effect on later waiters.",
  ["schedules"],"all resume orders of up to 3 waiters/notifiers on one thread, all bounded interleavings of two threads; both condition_variable and condition_variable_any",
  "the existing tests notify after a fixed choreography under one scheduler order.",
  [I+"condition_variable.hpp","src/condition_variable.cpp","src/waker.cpp"],[("wait(): spinlock taken before lt.unlock()",I+"condition_variable.hpp"),("notify_one/notify_all","src/condition_variable.cpp")],["who returned from wait, lock ownership on return"])
p("C06","Timed condition waits: verdict, deadline and notification accounting",
  "A timed wait reports a timeout only if its deadline has passed without its being notified, reports no timeout only if it was notified, and returns owning the lock in both cases. A waiter that timed out does not consume a later notification. The predicate forms return the value of the predicate and return false only after the deadline.",
  ["schedules","inputs"],"all deadlines and clock readings, all resume orders of up to 3 waiters with a notifier",
  "real-time tests cannot place the expiry between the notification and the resumption of the waiter.",
  [I+"condition_variable.hpp","src/condition_variable.cpp","src/waker.cpp","src/scheduler.cpp"],[("wait_until",I+"condition_variable.hpp"),("suspend_and_wait_until","src/waker.cpp")],["cv_status, predicate result, lock ownership"])
p("C07","A barrier releases each full group together, with one leader",
  "No wait on a barrier of size n returns before n fibers have arrived in the current cycle, and then all n return, exactly one of them with true. The barrier is immediately reusable, also by fibers re-entering before slower ones of the previous cycle have left; a size of zero is rejected with invalid_argument.",
  ["schedules","inputs","histories"],"all sizes up to the bound, several consecutive cycles, all resume orders, fibers on one or two threads",
  "test_barrier uses 3 fibers and one order; overlapping cycles are not exercised.",
  [I+"barrier.hpp","src/barrier.cpp"],[("cycle_ counter","src/barrier.cpp")],["return values of wait per cycle"])
p("C08","Buffered channel delivers every value exactly once, in order",
  "Every value successfully pushed is popped at most once, unchanged, values of one producer in the order pushed (globally in push order on one thread), and none is lost while the channel lives; an operation left by an exception of the value's own copy or move transfers nothing. The channel accepts exactly capacity minus one values before pushing reports full or blocks, reports empty only when empty, and rejects capacities below two or not a power of two with invalid_argument.",
  ["programs","inputs","schedules"],"all operation sequences (push, try_push, pop, try_pop, value_pop, timed forms, iteration) up to the bound, symbolic values and capacities, all resume orders, two threads",
  "tests push a few constants through one or two capacities; index wrap-around with mixed operations and blocked peers is barely touched.",
  [I+"buffered_channel.hpp"],[("ring buffer slots_, pidx_, cidx_",I+"buffered_channel.hpp")],["values and statuses returned by the operations"])
p("C09","Buffered channel never strands a producer or consumer",
  "A blocked producer resumes once there is room and a blocked consumer resumes once there is a value, on one thread or across threads: no fiber stays blocked while its operation could complete. Timed operations return success exactly when the transfer took place, report timeout only after their deadline, and giving up takes no wakeup away from other waiting fibers.",
  ["schedules","inputs"],"all resume orders of 2-3 producers/consumers, symbolic deadlines and clock, bounded interleavings of two threads",
  "stranding needs several waiters plus a specific order or an expiry at a specific point.",
  [I+"buffered_channel.hpp","src/waker.cpp"],[("waiting_producers_/waiting_consumers_",I+"buffered_channel.hpp")],["statuses, blocked fibers at quiescence"])
p("C10","Closing a buffered channel",
  "After close, pushes of any form report closed and do not change the channel, pops drain the remaining values in order and then report closed (or raise operation_not_permitted where a value must be returned), and every fiber blocked on the channel is resumed. Closing is idempotent, iteration over the channel ends after the last value, and stored values are destroyed exactly once.",
  ["schedules","histories"],"all positions of close relative to pending pushes/pops by up to 3 fibers, all resume orders; element types with observable lifetimes",
  "tests close in one or two quiet situations and use trivially destructible elements.",
  [I+"buffered_channel.hpp"],[("close()",I+"buffered_channel.hpp"),("iterator",I+"buffered_channel.hpp")],["statuses after close, element constructions/destructions"])
p("C11","Unbuffered channel is an exactly-once rendezvous",
  "Every value whose push reports success is received by exactly one pop, unchanged and in the order of one producer's pushes, and a push reports success only after its value has been taken; an operation left by an exception of the value's own copy or move transfers nothing and loses nothing. No fiber stays blocked while both a pushing and a popping fiber are waiting.",
  ["schedules","programs"],"all resume orders of up to 3 producers/consumers on one thread, bounded interleavings of two threads, symbolic values",
  "tests pair one producer with one consumer in one order.",
  [I+"unbuffered_channel.hpp","src/waker.cpp"],[("slot_ hand-over",I+"unbuffered_channel.hpp")],["values received vs. statuses of pushes"])
p("C12","Unbuffered channel: close and deadlines",
  "After close every push reports closed, every pop reports closed (or raises operation_not_permitted), and all fibers blocked on the channel are resumed; a value whose push did not report success is never delivered and never accessed afterwards. Timed operations report timeout only after their deadline and only if the transfer did not take place.",
  ["schedules","inputs"],"all positions of close and of expiries relative to pending operations of up to 3 fibers, symbolic deadlines and clock",
  "the windows between matching, closing and resuming cannot be placed by real-time tests.",
  [I+"unbuffered_channel.hpp"],[("close()",I+"unbuffered_channel.hpp"),("slot withdrawal on timeout",I+"unbuffered_channel.hpp")],["statuses and delivered values"])
p("C13","Promise and future: single assignment and error protocol",
  "A shared state becomes ready once, by the first value or exception, and that result and no other is what the future delivers; later assignments raise promise_already_satisfied, a second retrieval raises future_already_retrieved, and use without a shared state raises no_state or future_uninitialized. A promise abandoned with a retrieved but unsatisfied future delivers broken_promise. A one-shot future is invalid after its result was taken, a shared one stays valid. An error of futures equals its own error code and condition and no other.",
  ["programs","inputs"],"all sequences of promise/future operations (set, get, move, swap, share, destroy) up to the bound, for void, value and reference results",
  "tests check each error once in isolation, not in all orders and after moves/swaps.",
  [I+"future/promise.hpp",I+"future/future.hpp",I+"future/detail/shared_state.hpp",I+"future/detail/task_base.hpp","src/future.cpp"],[("ready_, obtained_ flags",I+"future/promise.hpp")],["results, errors and validity"])
p("C14","Waiting on futures",
  "A fiber waiting for a future resumes if and only if the result is ready (or, for timed waits, its deadline has passed), whatever the order of waiting and setting and whichever thread sets it; all waiters of a shared future resume and read the same result. A timed wait reports ready exactly when the result is ready by the time it returns from being ready, and timeout only after the deadline; a result set exactly once is visible in full to every waiter.",
  ["schedules","inputs"],"all resume orders of 2 waiters and a setter, symbolic deadlines, bounded interleavings of two threads",
  "tests wait with generous real-time margins.",
  [I+"future/detail/shared_state.hpp",I+"future/future.hpp","src/condition_variable.cpp"],[("shared_state::wait_/mark_ready_and_notify_",I+"future/detail/shared_state.hpp")],["future_status, values, blocked waiters"])
p("C15","Packaged tasks and async deliver exactly the callable's outcome",
  "Invoking a packaged task runs its callable once with the given arguments and makes its future ready with the returned value or the thrown exception; a second invocation raises promise_already_satisfied, an empty task raises packaged_task_uninitialized or no_state, reset gives a fresh state and breaks the old one. async runs the callable once in a fiber of the chosen launch policy and its future delivers the outcome.",
  ["programs","inputs"],"all bounded sequences of construct/move/swap/invoke/reset/destroy, callables returning symbolic values or throwing depending on symbolic input",
  "tests sample one normal and one throwing callable.",
  [I+"future/packaged_task.hpp",I+"future/async.hpp",I+"future/detail/task_object.hpp",I+"future/detail/task_base.hpp"],[("task_object::run",I+"future/detail/task_object.hpp")],["future outcome, call count"])
p("C16","Fiber handles: join, detach and misuse",
  "join returns only after the fiber's function has finished, makes its effects visible, and leaves the handle not joinable; any number of joins on different fibers, in any order relative to their termination, complete. Joining oneself raises resource_deadlock_would_occur, joining or detaching a non-joinable handle raises invalid_argument, and destroying or overwriting a joinable handle, or letting an exception leave a fiber function, terminates the program.",
  ["schedules","programs"],"all resume orders of up to 3 fibers, all bounded sequences of handle operations incl. moves and swaps",
  "tests join in program order under round_robin only; termination outcomes are not tested at all.",
  ["src/fiber.cpp",I+"fiber.hpp","src/context.cpp"],[("context::join wait queue","src/context.cpp"),("terminated_ flag","src/context.cpp")],["order of function end and join return, errors"])
p("C17","Fibers run once and release everything exactly once",
  "The function given to a fiber is run exactly once with the given arguments, moved not duplicated; the function object, its arguments, the control structure and the stack are released exactly once each, after the function has finished and not before the last user is gone. No history of joins, detaches, blocked waits and thread exit touches released memory or leaks.",
  ["schedules","histories","programs"],"all resume orders of up to 3 fibers with joined and detached handles, blocking on each other, finishing before or after the handle is dropped; counting stack allocators",
  "no test checks lifetimes of captured state or balance of stack allocation; sanitizers do not understand the stack switching by default.",
  ["src/context.cpp","src/scheduler.cpp",I+"context.hpp",I+"fiber.hpp"],[("use_count_ / intrusive_ptr_release",I+"context.hpp"),("terminated_queue_ released by the dispatcher","src/scheduler.cpp")],["allocator balance, object lifetimes, memory accesses"])
p("C18","Launch policy decides who runs first",
  "A fiber launched with dispatch runs before its creator continues, and one launched with post runs only after its creator yields, blocks or is otherwise switched out; in both cases creator and fiber each continue exactly once. The default is post.",
  ["schedules","programs"],"all bounded mixes of dispatch and post launches, nested up to the bound, with any ready order",
  "tests cover one launch each, not nested or mixed with blocked fibers.",
  [I+"fiber.hpp","src/fiber.cpp","src/context.cpp"],[("fiber::start_","src/fiber.cpp"),("context::resume(ready_ctx)","src/context.cpp")],["order of events"])
p("C19","Round-robin scheduling is FIFO and starves nobody",
  "With the default scheduler, ready fibers are resumed in the order they became ready and a yielding fiber goes behind all fibers already ready, so each ready fiber runs before any other runs twice. Every ready fiber is resumed exactly once per time it becomes ready.",
  ["programs","histories"],"all bounded programs of up to 3-4 fibers choosing among yield, block, wake, spawn and finish",
  "tests observe a fixed order for one program.",
  ["src/algo/round_robin.cpp",I+"algo/round_robin.hpp","src/scheduler.cpp"],[("rqueue_","src/algo/round_robin.cpp")],["resume order"])
p("C20","Sleeping fibers wake in deadline order, never early, always eventually",
  "A sleeping fiber does not resume before its wake-up time, resumes once the clock has passed it even if every other fiber is idle or keeps yielding, and among sleepers found expired together the earlier deadline becomes ready first. Deadlines in the past, equal deadlines and extreme durations are handled without hanging or waking early.",
  ["inputs","schedules"],"all wake-up times and clock readings (symbolic 64-bit, non-decreasing), up to 3 sleepers plus busy fibers",
  "real-time tests use a couple of fixed delays.",
  ["src/scheduler.cpp",I+"operations.hpp","src/algo/round_robin.cpp"],[("sleep_queue_ ordered by tp_",I+"scheduler.hpp"),("sleep2ready_","src/scheduler.cpp")],["clock at resumption, order"])
p("C21","Wakeups from other threads are neither lost nor doubled",
  "When a fiber is woken by code running on another thread, its own thread resumes it exactly once, even if that thread is just going to sleep, already asleep, or simultaneously waking the fiber for a timeout. The sleeping thread is notified, and the fiber continues on its own thread.",
  ["schedules"],"all interleavings within the context bound of a waking thread with a thread that runs out of ready fibers, for the default scheduler",
  "the race between going idle and being notified is a window of a few instructions.",
  ["src/scheduler.cpp","src/algo/round_robin.cpp","src/context.cpp"],[("remote_ready_queue_ + notify","src/scheduler.cpp"),("flag_ under mutex","src/algo/round_robin.cpp")],["resumption of the woken fiber, thread progress"])
p("C22","Each blocking episode ends by exactly one wakeup",
  "If a blocked fiber can be woken for several reasons (notification, expiry, close), on whatever thread, exactly one of them resumes it, and leftovers of an earlier blocking episode never resume it out of a later one.",
  ["schedules","histories"],"all interleavings within the bound of an expiring waiter with one or two notifiers, followed by a second blocking episode",
  "needs two wake sources in the same instant and an observer of the next blocking episode.",
  ["src/context.cpp","src/waker.cpp",I+"waker.hpp","src/scheduler.cpp"],[("waker_epoch_ compare-exchange","src/context.cpp")],["returns of blocking calls"])
p("C23","Work sharing runs every fiber exactly once at a time",
  "With the work-sharing scheduler every ready fiber is eventually resumed by exactly one of the participating threads, never by two at once, and fibers bound to their thread (the thread's main fiber and its dispatcher) are resumed only there. A thread that goes idle is woken when work or a notification arrives for it (suspending mode).",
  ["schedules"],"bounded interleavings of two threads sharing up to 3 fibers that yield, block and finish",
  "tests/examples run one OS schedule and only count completions.",
  ["src/algo/shared_work.cpp",I+"algo/shared_work.hpp","src/scheduler.cpp"],[("rqueue_ under rqueue_mtx_ vs lqueue_","src/algo/shared_work.cpp")],["per-fiber resume counts and thread ids"])
p("C24","Work stealing never duplicates, loses or moves pinned fibers",
  "With the work-stealing scheduler every ready fiber is resumed by exactly one thread, stolen or not, no fiber is lost or resumed by two threads at once, and fibers bound to their thread are never stolen. An idle thread can take a ready fiber that another thread does not get to run. After being stolen a fiber behaves as before with respect to blocking and waking.",
  ["schedules"],"bounded interleavings of a thief with an owner that pushes and pops, symbolic victim choice",
  "races between owner and thief on the last element are a few instructions wide.",
  ["src/algo/work_stealing.cpp",I+"algo/work_stealing.hpp",I+"detail/context_spinlock_queue.hpp"],[("steal()/pick_next","src/algo/work_stealing.cpp")],["per-fiber resume counts and thread ids"])
p("C25","Fiber-specific storage is per fiber and cleaned up once",
  "A fiber-specific pointer starts null in each fiber and always returns the value last stored by that same fiber for that same pointer, independent of other fibers and pointers. The cleanup is applied exactly once to each value when it is replaced by a different one or when its fiber ends, never to a released value and never to null. This includes values that the cleanup functions of an ending fiber read, store or remove themselves.",
  ["programs","schedules"],"all bounded sequences of reset/release/get by 2 fibers on 2 pointers with interleaved yields, symbolic stored values",
  "tests use one pointer with one store per fiber.",
  [I+"fss.hpp",I+"detail/fss.hpp","src/context.cpp"],[("fss_data_ map","src/context.cpp")],["get() results and cleanup calls"])
p("C26","Fiber properties reach the scheduler that uses them",
  "With a scheduler that uses properties, each fiber has one properties object, the same for its whole life and released once; fiber and properties refer to each other consistently. Changing a property of a ready fiber calls back the scheduler with that fiber and its properties exactly once per change, and not for a fiber that is not ready; re-announcing it keeps the fiber queued exactly once.",
  ["programs","schedules"],"all bounded sequences of property changes on running, ready and blocked fibers under a priority scheduler with symbolic priorities",
  "only an example exercises properties; no test does beyond one priority run.",
  [I+"properties.hpp","src/properties.cpp",I+"algo/algorithm.hpp","src/algo/algorithm.cpp"],[("fiber_properties::notify","src/properties.cpp")],["callbacks seen by the scheduler"])
p("C27","A thread's exit waits for its fibers",
  "Ending a thread that has used fibers first runs all of its remaining fibers, detached, sleeping or blocked on something that will happen, to completion, then releases the scheduler, and nothing is used afterwards. A thread that never used fibers explicitly can use every fiber operation from its main fiber.",
  ["schedules","histories"],"all bounded mixes of detached fibers that yield, sleep, wait for each other or spawn more fibers while the thread ends, with any ready order",
  "tests join everything before leaving the thread.",
  ["src/context.cpp","src/scheduler.cpp"],[("context_initializer / scheduler::~scheduler","src/context.cpp"),("shutdown_ in dispatch","src/scheduler.cpp")],["completion of detached fibers, memory accesses and balance"])
p("C28","Spinlocks give mutual exclusion and are always released",
  "Each of the library's spinlock variants lets at most one thread hold it, lets a waiting thread in after it is released, and a non-blocking attempt fails only if the lock is held (or contended). What is written under the lock is visible to the next holder.",
  ["schedules"],"all interleavings within the context bound of 2-3 threads on each variant (plain, adaptive, futex, adaptive futex), and a memory-order analysis of acquire/release pairs",
  "only the variant configured by default is compiled into the tests, and only one schedule runs.",
  [I+"detail/spinlock_ttas.hpp",I+"detail/spinlock_ttas_adaptive.hpp",I+"detail/spinlock_ttas_futex.hpp",I+"detail/spinlock_ttas_adaptive_futex.hpp",I+"detail/futex.hpp"],[("exchange(locked, acquire) / store(unlocked, release)",I+"detail/spinlock_ttas.hpp")],["critical section occupancy, progress"])
p("C29","Work queues neither lose nor duplicate entries",
  "The queues behind work stealing return every pushed fiber exactly once, to the owner or to a thief, in the documented order per queue, across growth and index wrap-around, and report empty only if empty (or contended for a thief). A fiber bound to its thread is never returned to a thief.",
  ["schedules","programs","inputs"],"all bounded sequences of push/pop/steal, all bounded interleavings of one owner with one or two thieves, including growth of the buffer",
  "no test touches these queues directly.",
  [I+"detail/context_spinlock_queue.hpp",I+"detail/context_spmc_queue.hpp"],[("ring with spinlock",I+"detail/context_spinlock_queue.hpp"),("top_/bottom_ Chase-Lev",I+"detail/context_spmc_queue.hpp")],["entries returned by pop/steal"])
p("C30","Fiber identity, moves and swaps",
  "Identifiers of distinct live fibers are different and totally ordered consistently with equality and hashing, the id of a handle equals the id its fiber sees, and an empty handle has the default id. Moving or swapping handles transfers the fiber without affecting its execution and leaves the source not joinable.",
  ["programs","inputs"],"all bounded sequences of construct/move/swap/compare on up to 3 handles with running, finished and detached fibers",
  "tests compare one pair of ids.",
  [I+"fiber.hpp",I+"context.hpp",I+"operations.hpp"],[("context::id",I+"context.hpp")],["ids, joinable(), ordering"])
p("C31","Fiber control data fits its stack for any allocator",
  "For every stack the allocator hands out, of any size and alignment large enough for it, the fiber's control structure lies inside that stack, suitably aligned and not overlapping the part used for execution, and exactly the stack that was allocated is given back. Allocation failure is reported by bad_alloc and leaves nothing behind.",
  ["inputs","configurations"],"all stack addresses and sizes (symbolic), all allocation failures",
  "tests use the default allocator with its default size and page-aligned blocks.",
  [I+"context.hpp","src/context.cpp",I+"stack_allocator_wrapper.hpp"],[("make_worker_context placement",I+"context.hpp")],["addresses passed to the allocator and to context creation"])
p("C32","Replacing the scheduler or preparing a thread loses nothing",
  "Installing a scheduling algorithm on a thread, at any time, keeps every ready fiber schedulable exactly once and uses the new algorithm from then on; the old one is released. Preparing a thread with an algorithm and a stack allocator before first use takes both into use and reports it; doing so later only replaces the algorithm and reports that.",
  ["programs","schedules"],"installation at every point of bounded programs with ready, blocked and sleeping fibers",
  "tests install an algorithm only before any fiber exists.",
  ["src/scheduler.cpp","src/context.cpp",I+"operations.hpp"],[("scheduler::set_algo","src/scheduler.cpp"),("context::initialize_thread","src/context.cpp")],["fibers resumed by which algorithm"])
p("C33","Synchronisation operations order memory",
  "Whatever a fiber wrote before releasing a mutex, notifying, pushing a value, setting a result, arriving at a barrier or finishing is visible to the fiber on another thread that acquires, is woken, pops, gets, passes the barrier or joins. The library's own shared data are never accessed by two threads without such an ordering.",
  ["schedules"],"all interleavings within the context bound of two threads; happens-before computed from the declared memory orders, so weaker hardware is covered",
  "x86 test machines hide missing acquire/release; a race needs the right interleaving to matter.",
  [I+"detail/spinlock_ttas.hpp",I+"context.hpp","src/scheduler.cpp","src/algo/round_robin.cpp",I+"future/detail/shared_state.hpp"],[("spinlock acquire/release",I+"detail/spinlock_ttas.hpp")],["happens-before of every pair of conflicting accesses"])
p("C34","NUMA-aware stealing prefers the local node and respects pinning",
  "For every topology description, a NUMA-aware work-stealing scheduler considers as local victims exactly the logical processors of its own node and as remote victims exactly those of the other nodes, pins its thread to its own processor, and a fiber is still resumed exactly once. Pinning sets exactly the requested processor and reports failure.",
  ["configurations","inputs"],"all topologies with up to 3 nodes and 4 processors in total (symbolic membership), each processor as self",
  "there are no tests of the NUMA library at all.",
  ["src/numa/algo/work_stealing.cpp",I+"numa/algo/work_stealing.hpp","src/numa/linux/pin_thread.cpp"],[("get_local_cpus/get_remote_cpus","src/numa/algo/work_stealing.cpp")],["affinity mask set, victims consulted"])
p("C35","Deadlines mean the same on every clock",
  "A relative or absolute timeout given on any clock makes the operation expire neither before nor unboundedly after the equivalent point on the clock the library uses; durations too long to represent never expire early.",
  ["inputs"],"all 64-bit durations and clock readings, steady and system clock, all timed operations",
  "tests use fixed delays of milliseconds to seconds.",
  [I+"detail/convert.hpp",I+"operations.hpp",I+"timed_mutex.hpp"],[("convert()",I+"detail/convert.hpp")],["expiry decisions relative to the clock"])
p("C36","Any scheduling order a custom scheduler picks is honoured",
  "The library's guarantees do not depend on the default scheduler: with any user-supplied algorithm that returns each announced fiber once, each fiber is announced exactly once every time it becomes ready, is never announced while running, blocked or finished, and the algorithm's notification and suspension calls are made when the thread must wake or wait, with the earliest deadline.",
  ["schedules","programs"],"all orders chosen by a symbolic scheduler over bounded programs using mutexes, channels, sleeps and joins",
  "tests run round_robin only (plus two shipped variants).",
  ["src/scheduler.cpp","src/context.cpp",I+"algo/algorithm.hpp"],[("awakened/pick_next/suspend_until/notify protocol","src/scheduler.cpp")],["calls received by the algorithm"])
p("C37","NUMA topology is read correctly from the operating system",
  "The topology reported for a machine lists every online processor, and no other, under the node it belongs to, the nodes in the order of their numbers, each with exactly the distances the operating system publishes for it. On a machine that publishes no nodes all online processors form node 0.",
  ["configurations","inputs"],"all machines of up to 4 processors with numbers up to 12 on up to 3 nodes; any published distances of up to 3 digits; any order of directory entries",
  "there are no tests; the one machine a test runs on has one topology.",
  ["src/numa/linux/topology.cpp"],[("parsing of /sys/devices/system/node","src/numa/linux/topology.cpp")],["result of topology()"])
p("C38","Waiting for GPU work suspends only the fiber",
  "Waiting for work queued on GPU streams suspends only the calling fiber and resumes it once, with the status of every stream, after all of them completed.",
  ["schedules"],"all completion orders of up to 3 streams",
  "needs GPU hardware and runtime.",
  [I+"cuda/waitfor.hpp",I+"hip/waitfor.hpp"],[("rendezvous object filled by stream callbacks",I+"cuda/waitfor.hpp")],["result of waitfor_all"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
