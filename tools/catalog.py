"""The catalogue of properties: source of properties.jsonl."""

S, I, P, H, C, F = "schedules", "inputs", "programs", "histories", "configurations", "fault_sequences"


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }


PROPERTIES = [
    prop("P01", "Serial queues never run two operations at once and keep submission order",
         "At no time do two operations submitted to the same serial queue of the naive backend or of the Qt backend "
         "run concurrently, and they start in the order in which they were submitted. An operation submitted to an "
         "idle serial queue gets scheduled, and a busy queue continues until everything submitted has run.",
         [S, P, H], "all interleavings of submitting threads and pool workers, any number of operations, also "
                    "operations submitting further operations",
         "The tests submit a few dozen operations from one thread; a lost or doubled drain needs a submission exactly "
         "between the last emptiness test of the drain and its end.",
         ["src/naive/naive_operation_queue.cpp", "src/naive/naive_serial_queue.cpp"],
         [("list of operations and single scheduled drain", "src/naive/naive_operation_queue.cpp"),
          ("serial queue forwarding to the operation queue", "src/naive/naive_serial_queue.cpp")],
         [("operation list", "submitted and not yet removed operations", "src/naive/naive_operation_queue.h")],
         ["iqueue_impl::async", "operation execution"]),
    prop("P02", "Every operation accepted by a queue is executed exactly once",
         "An operation passed to async() of any queue (serial, parallel, global, main, manual and pool threads, Qt "
         "event based) or to execute() of a thread pool is handed on to exactly one executor and runs exactly once. "
         "It is neither dropped nor duplicated on the way, and for an operation queued to a pool either a worker "
         "is woken, started, or known to be available or the thread limit to be exhausted.",
         [S, P, H], "all queue kinds, submission from any thread, any interleaving of submission and workers "
                    "starting, idling and terminating",
         "Losing an operation needs a worker terminating or blocking at the very moment of a submission.",
         ["src/queue.cpp", "src/naive/naive_threadpool.cpp", "src/naive/naive_manual_thread.cpp",
          "src/naive/naive_parallel_queue.cpp", "src/naive/naive_serial_queue.cpp",
          "src/qt5/qt5_serial_queue.cpp", "src/qt5/qt5_threadpool.cpp", "src/qt5/qt5_parallel_queue.cpp"],
         [("hand over of operations to the pool and its workers", "src/naive/naive_threadpool.cpp"),
          ("manual thread", "src/naive/naive_manual_thread.cpp"),
          ("posting to the Qt event loop", "src/qt5/qt5_serial_queue.cpp")],
         [("pool queue and ticket semaphore", "one ticket per queued operation", "src/naive/naive_threadpool.cpp")],
         ["iqueue_impl::async", "ithreadpool::execute"]),
    prop("P03", "No library lock is held while user code runs",
         "While operations, signal handlers, timer and socket handlers, dispatch functions or user-implemented "
         "thread pools and queues are being called by the library, the calling thread holds no lock of the library, "
         "so that they can use any API of the library, also on the very object calling them. The synchronous update "
         "mode of signals is the one documented exception.",
         [P, S], "any user code called at any call site, on every path leading there",
         "Deadlock shows only if the callback happens to call back into the same object; tests use simple callbacks.",
         ["src/signals.cpp", "src/naive/naive_operation_queue.cpp", "src/naive/naive_timer.cpp",
          "src/naive/naive_socket_notifier.cpp", "src/waitable_queue.cpp", "src/cancelable.cpp",
          "src/naive/naive_threadpool.cpp"],
         [("unlock before call, inverse lock guard", "src/naive/naive_inverse_lockguard.h"),
          ("connection snapshot", "src/signals.cpp")], (), ["every call of user code"]),
    prop("P04", "group::wait() succeeds only after all operations of the group completed",
         "group::wait() returns true only after every operation added to the group before the call has completed, "
         "for every sequence of async, notify and wait calls on the group. It returns false only if its timeout "
         "elapsed with operations still incomplete, and never returns false when waiting without a timeout.",
         [S, H], "all interleavings of adding, executing and waiting, any number of rounds",
         "Tests wait for one or two rounds of operations; the interleavings of a round ending while operations are "
         "added and of notify replacing the tracked round are not sampled.",
         ["src/naive/naive_group.cpp", "src/naive/naive_consumable.cpp", "src/group.cpp",
          "src/naive/naive_operations.cpp"],
         [("rounds of operations as chained consumables", "src/naive/naive_consumable.cpp"),
          ("swap of the active round", "src/naive/naive_group.cpp")],
         [("consumable counter", "operations of the round not completed", "src/naive/naive_consumable.h")],
         ["group::wait"]),
    prop("P05", "Group notifications run exactly once after completion on the given queue",
         "An operation passed to group::notify() is dispatched exactly once, to the queue requested, and only after "
         "all operations added to the group before have completed. It is never lost, also when the group is empty, "
         "completes concurrently, or is destroyed by its user meanwhile.",
         [S, H], "all interleavings of notify, async and completion on any number of threads",
         "The race between the last completion and the registration of the notification is not sampled.",
         ["src/naive/naive_group.cpp", "src/naive/naive_consumable.cpp", "src/naive/naive_operations.cpp",
          "src/group.cpp"],
         [("notification waiting for the round", "src/naive/naive_operations.cpp"),
          ("round of the group", "src/naive/naive_group.cpp")], (), ["group::notify"]),
    prop("P06", "apply() runs each index exactly once and returns after all completed",
         "queue::apply(n, op) executes op for each index in 0..n-1 exactly once and returns only after every "
         "execution completed; with n equal to zero it returns at once. This holds on serial and on parallel queues "
         "of all backends.",
         [I, S], "all repetition counts, all interleavings of the workers",
         "Tests use one or two counts on idle machines.",
         ["src/queue.cpp", "src/naive/naive_parallel_queue.cpp", "src/naive/naive_serial_queue.cpp",
          "src/naive/naive_operations.cpp", "src/qt5/qt5_serial_queue.cpp"],
         [("iteration and completion", "src/naive/naive_operations.cpp"),
          ("waiting for the iterations", "src/naive/naive_parallel_queue.cpp")], (), ["iqueue_impl::apply"]),
    prop("P07", "A delayed operation is executed once, on the queue it was submitted to",
         "An operation passed to after() of any queue is executed exactly once after the delay, never synchronously "
         "in the call, and on the queue it was submitted to. The timer serving it is kept alive until then and "
         "released afterwards.",
         [P, S], "any queue kind, any delay, any interleaving of expiration with the caller going away",
         "Tests check that an operation arrives, not that it cannot arrive twice or its timer leak.",
         ["src/naive/naive_serial_queue.cpp", "src/naive/naive_parallel_queue.cpp", "src/waitable_queue.cpp",
          "src/qt5/qt5_serial_queue.cpp", "src/naive/naive_operations.cpp", "src/naive/naive_timer.cpp"],
         [("self deleting timer", "src/naive/naive_timer.cpp")], (), ["iqueue_impl::after"]),
    prop("P08", "Timers fire only while resumed and never after cancellation",
         "A timer's handler is invoked on the timer's target queue, only while the timer is resumed, never "
         "concurrently with itself, and at least the configured time after the previous invocation or the start. "
         "After a cancellation no further invocation is begun, after the suspend() matching the resume() at most "
         "one which was already due. Resuming a running timer starts no second series of invocations, suspending a "
         "stopped one has no effect, and a cancelled timer is never resumed again.",
         [S, H], "all sequences of resume, suspend, interval, handler and queue changes, in all interleavings with "
                 "expirations",
         "Tests use one timer with generous intervals.",
         ["src/naive/naive_timer.cpp", "src/timer.cpp", "src/cancelable.cpp"],
         [("timer worker and its generation", "src/naive/naive_timer.cpp")], (), ["itimer_impl"]),
    prop("P09", "Socket notifiers report readiness once per event until suspended",
         "A socket notifier invokes its handler on its target queue, with the descriptor and notification type it was "
         "created for, only after the descriptor became ready and only while resumed, and it waits for the handler to "
         "finish before it looks at the descriptor again. After a cancellation no further invocation is begun, "
         "after the suspend() matching the resume() at most one for which the descriptor was ready before. It ends "
         "when the descriptor is invalid but not on timeouts or other errors of the system call.",
         [S, H, F], "all interleavings of readiness, suspend, resume and cancel, all results of the system calls",
         "Tests use one pipe and never see an error of the system call or a suspend racing with readiness.",
         ["src/naive/naive_socket_notifier.cpp", "src/socket_notifier.cpp"],
         [("notifier worker", "src/naive/naive_socket_notifier.cpp")], (), ["isocket_notifier_impl"]),
    prop("P10", "disable() returns only after running invocations ended and prevents new ones",
         "Once a cancellation issued from outside of the guarded invocations returned, no invocation guarded by the "
         "object is executing on another thread and none will start. Cancelling from within the guarded invocation itself does not block, and each "
         "successful entry of the guarded section is left exactly once, waking every waiting cancellation.",
         [S, H], "all interleavings of entering, leaving and cancelling threads, nested entries included",
         "Needs a cancellation exactly between the test and the entry of an invocation.",
         ["src/cancelable.cpp", "include/xdispatch/impl/cancelable.h", "src/signals.cpp"],
         [("entry counter and disabled flag", "src/cancelable.cpp")], (), ["cancelable", "connection::disconnect"]),
    prop("P11", "A raised signal reaches every connected handler exactly once with its arguments",
         "Raising a signal delivers the arguments to each handler connected and not disconnected at that time exactly "
         "once, on the queue given at connection time. A handler disconnected before is not called, skipping applies "
         "only to emissions already pending, and handlers of one queue see emissions in the order of raising.",
         [S, H, P], "all interleavings of raise, connect, disconnect and skip calls, any number of connections",
         "Tests connect a handful of handlers and never connect or disconnect while raising.",
         ["src/signals.cpp", "include/xdispatch/signals.h", "src/cancelable.cpp"],
         [("connection list and dispatch", "src/signals.cpp")], (), ["signal::operator()"]),
    prop("P12", "Connections are released exactly once and never outlive their signal",
         "A connection is in the list of its signal from connect() until it is disconnected, disconnecting any "
         "number of times in any order (by handle, by scope, by manager, by destruction of the signal) is safe, "
         "and the signal's destruction disconnects all that remain. A moved-from or empty handle refers to nothing.",
         [H, S], "all orders of destroying signals, connections, scoped connections and managers",
         "Only some destruction orders are tested.",
         ["src/signals.cpp", "include/xdispatch/signals.h"],
         [("weak reference of connections to the signal", "src/signals.cpp")], (), ["connection", "scoped_connection"]),
    prop("P13", "signal_barrier yields the values of the first emission after its creation",
         "A signal barrier's wait() returns true only after the observed signal was emitted since the barrier was "
         "created, and the values it provides are the ones of the first such emission. Waiting again returns at once "
         "with the same values, a timeout returns false, and values are not accessible before.",
         [S, I], "all interleavings of emissions and waits, all signal argument types",
         "Tests emit once.",
         ["include/xdispatch/signals_barrier.h"],
         [("barrier and stored values", "include/xdispatch/signals_barrier.h")], (), ["signal_barrier::wait"]),
    prop("P14", "Barriers never lose a completion and never report one that did not happen",
         "wait() on a barrier (also on an operation-backed barrier) returns true only after the barrier was completed, "
         "returns false only if the timeout elapsed, and once the barrier is completed all present and future waiters "
         "get released. Completion is a one-shot: it is visible to was_completed() and wait() ever after, and "
         "whatever happened before it is visible to the released threads.",
         [S, H], "all interleavings of any number of waiters with the completing thread, also spurious failures of "
                 "atomic operations and spurious wakeups",
         "The decisive windows are a few instructions long and weak compare exchange does not fail spuriously on x86.",
         ["src/lightweight_barrier.cpp", "src/barrier_operation.cpp",
          "include/xdispatch/impl/lightweight_barrier.h"],
         [("atomic waiter slot", "src/lightweight_barrier.cpp"),
          ("waiter with condition variable", "src/lightweight_barrier.cpp")],
         [("owner", "none, a waiter, or completed", "include/xdispatch/impl/lightweight_barrier.h")],
         ["barrier_operation::wait"]),
    prop("P15", "waitable_queue forwards each operation once, in order, to the thread that waits",
         "Operations submitted to a waitable queue run exactly once, in submission order and never concurrently, either "
         "on the queue wrapped or on a thread calling its wait. wait_for_one returns only having consumed the completion "
         "of one operation or having seen the queue idle and empty, wait_for_all only having seen it idle and empty, "
         "and a thread waiting for an active operation is notified once that completed.",
         [S, H], "all interleavings of submission, waiting threads and the wrapped queue",
         "The interplay of a waiting thread with concurrently dispatched jobs is sampled only in a single order.",
         ["src/waitable_queue.cpp", "include/xdispatch/waitable_queue.h"],
         [("operation list and jobs on the wrapped queue", "src/waitable_queue.cpp")], (), ["waitable_queue"]),
    prop("P16", "The semaphore grants exactly as many acquisitions as were released",
         "Each successful acquisition consumes exactly one unit released before, an acquisition fails only after its "
         "timeout and without consuming anything, and as long as units are available no thread stays blocked. "
         "A release of n units allows exactly n acquisitions.",
         [S, H], "all interleavings of any number of acquiring and releasing threads",
         "Lost wakeups need a release between the last attempt and the blocking of an acquiring thread.",
         ["src/naive/naive_semaphore.cpp"],
         [("atomic counter plus announced waiters", "src/naive/naive_semaphore.cpp")],
         [("count", "units available", "src/naive/naive_semaphore.h")], ["semaphore"]),
    prop("P17", "The thread pool accounts its threads exactly and keeps within its limit",
         "A naive thread pool starts a thread only after it found the number of its threads below the limit, counts each "
         "started thread once and each terminated one once, and raises or lowers the limit in balance when operations "
         "announce blocking. A worker leaves only if no operation is left for it.",
         [S, H], "all interleavings of submissions, blocking announcements and terminating workers",
         "Counters drifting by one need particular interleavings and show only after many rounds.",
         ["src/naive/naive_threadpool.cpp", "src/thread_utils.cpp"],
         [("atomic counters of the pool", "src/naive/naive_threadpool.cpp")], (), ["ithreadpool::execute"]),
    prop("P18", "Priorities are mapped in order and passed on unchanged",
         "Every queue priority maps to the same relative rank in all places it is used: the order in which pool workers "
         "take operations, Qt priorities and thread niceness never rank a lower priority above a higher one, and the "
         "global queue of a priority operates at that priority. A queue submits its operations with the priority it was "
         "created with. Values outside of the enumeration never select storage which does not exist.",
         [I], "all priority values",
         "Tests look at the default priority only.",
         ["src/naive/naive_threadpool.cpp", "src/qt5/qt5_threadpool.cpp", "src/thread_utils.cpp"],
         [("bucket index", "src/naive/naive_threadpool.cpp"), ("Qt priority", "src/qt5/qt5_threadpool.cpp"),
          ("niceness", "src/thread_utils.cpp")], (), ["queue_priority"]),
    prop("P19", "Objects of different backends are never combined silently",
         "Timers and notifiers are created by the backend of the queue they target, and every object created belongs to "
         "the backend requested (for timers and notifiers the one of their queue). A group of a backend other than naive "
         "refuses queues of another backend before anything is scheduled, as do timers and notifiers constructed with a "
         "queue of another backend; objects of the same backend are never refused.",
         [C, P], "all pairs of backends, all creation functions",
         "Tests use each backend in isolation.",
         ["src/backend.cpp", "src/group.cpp", "src/queue.cpp", "src/timer.cpp", "src/socket_notifier.cpp"],
         [("backend type carried by all objects", "src/backend.cpp")], (), ["dispatch interface"]),
    prop("P20", "Queue labels and identity are preserved",
         "A queue reports the label it was created with, handles compare equal exactly if they refer to the same "
         "underlying queue, and copies refer to the queue of the original. The main queue and each priority's global "
         "queue are created once, all threads get the same object. Timers and notifiers return the target queue they "
         "were created with.",
         [P, S], "all handles, all threads requesting the shared queues",
         "Singletons racing on first use are not tested.",
         ["src/queue.cpp", "src/backend.cpp", "src/naive/naive_parallel_queue.cpp",
          "src/naive/naive_serial_queue.cpp"],
         [("static local singletons", "src/backend.cpp")], (), ["queue"]),
    prop("P21", "Objects outlive the work they scheduled",
         "Whatever a scheduled operation refers to stays valid until that operation has ended, also if the user drops all "
         "handles meanwhile: the operation owns it, its submitter waits for the operation, or its destructor does. A queue or "
         "pool thread keeps itself alive from its creation until everything submitted to it has been executed and is then given "
         "up exactly once. A thread is joined before the members it uses are destroyed.",
         [S, H], "all points in time at which the last user handle can go away",
         "Use after free shows only for particular destruction times and often silently.",
         ["src/naive/naive_operation_queue.cpp", "src/naive/naive_operation_queue_manager.cpp",
          "src/naive/naive_timer.cpp", "src/naive/naive_socket_notifier.cpp", "src/waitable_queue.cpp",
          "src/naive/naive_manual_thread.cpp"],
         [("shared ownership captured by scheduled operations", "src/naive")], (), ["destructors"]),
    prop("P22", "The library is free of data races",
         "All data reachable by more than one thread is accessed either atomically, under one common lock, or only before "
         "it is published. Using different objects, and objects documented as thread-safe, from several threads at once "
         "is free of unsynchronised conflicting accesses.",
         [S, P], "all pairs of public operations on shared objects",
         "Race detectors see only the executed interleavings.",
         ["src", "include/xdispatch"],
         [("mutexes and atomics of each class", "src")], (), ["every shared member"]),
    prop("P23", "The library cannot deadlock on its own locks",
         "Locks of the library are acquired in one global order and never recursively, and no thread waits for another "
         "thread's progress (join, barrier, semaphore or condition of another object) while holding a lock.",
         [S, P], "all call paths and interleavings",
         "A deadlock needs two threads in opposite orders at the same time.",
         ["src", "include/xdispatch"],
         [("short critical sections", "src")], (), ["every lock acquisition"]),
    prop("P24", "Condition variable waits re-check their condition and are always notified",
         "Every blocking wait re-evaluates its condition under the lock after each wakeup, and every change that can make "
         "such a condition true is made under the same lock or is followed by a notification that cannot fall between "
         "the waiter's check and its wait.",
         [S], "all interleavings, spurious wakeups included",
         "Lost wakeups and spurious wakeups practically never occur in tests.",
         ["src/lightweight_barrier.cpp", "src/naive/naive_semaphore.cpp", "src/naive/naive_manual_thread.cpp",
          "src/naive/naive_timer.cpp", "src/naive/naive_consumable.cpp", "src/waitable_queue.cpp"],
         [("condition variables", "src")], (), ["condition_variable::wait"]),
    prop("P25", "Pool and blocking scopes of a thread are restored on all paths",
         "A thread announced as blocked to its pool is announced as unblocked on every path leaving the blocking section, "
         "also when an exception is thrown, and the pool lets another thread run meanwhile. Threads of a pool waiting for a "
         "group, applying operations or serving timers and notifiers announce this. The pool a thread works for is known "
         "exactly while it runs operations of that pool and restored afterwards.",
         [P, S], "all paths through blocking sections, exceptional ones included",
         "Tests neither throw in blocking sections nor count the announcements.",
         ["include/xdispatch/backend_naive_ithreadpool.h", "src/naive/naive_threadpool.cpp", "src/naive/naive_consumable.cpp",
          "src/naive/naive_timer.cpp", "src/naive/naive_socket_notifier.cpp", "src/qt5/qt5_threadpool.cpp"],
         [("RAII scopes", "include/xdispatch/backend_naive_ithreadpool.h")], (), ["ithreadpool::notify_thread_blocked"]),
    prop("P26", "Exceptions of operations are not swallowed and leave no lock or scope held",
         "An exception thrown by an operation is not caught and dropped by the library: it propagates out of the call "
         "executing it or terminates the program. Locks held and scopes entered by the library are left "
         "when it propagates.",
         [P, F], "an exception at every call of user code",
         "Tests do not throw.",
         ["src/operation.cpp", "src/naive/naive_threadpool.cpp", "src/signals.cpp", "src/cancelable.cpp"],
         [("noexcept boundaries and RAII", "src")], (), ["operation execution"]),
    prop("P27", "Invalid arguments are rejected before anything is scheduled",
         "Null operations and null implementation objects handed to the public API are rejected by an "
         "assertion or exception at the call, before being stored or scheduled. They never reach a worker thread.",
         [I], "all public functions taking operations or implementations",
         "The tests do not pass invalid arguments.",
         ["src/queue.cpp", "src/group.cpp", "src/timer.cpp", "src/socket_notifier.cpp", "src/naive"],
         [("assertions at the API", "src/xdispatch_internal.h")], (), ["public API"]),
    prop("P28", "Qt connections follow the lifetime of their receiver",
         "A handler connected with a QObject receiver is registered for the queue given and is disconnected before the "
         "destructor of this object ends, no matter which thread connected it, so that no handler is called on a destroyed "
         "receiver. Disconnecting a receiver from a signal closes the connections between the two and no others.",
         [H, S], "all orders of destroying receiver, signal and connection",
         "Tests destroy receivers in one order.",
         ["src/qt5/qt5_signals.cpp", "src/qt5/qt5_signals.h", "include/xdispatch/signals.h"],
         [("receiver tracking", "src/qt5/qt5_signals.cpp")], (), ["signal::connect"]),
    prop("P29", "Lock-free publications use orderings that make prior writes visible",
         "Wherever data is handed from one thread to another by an atomic variable instead of a lock, the writing side "
         "releases and the reading side acquires, and decisions spanning several atomic variables are sequentially "
         "consistent. Atomic updates are not split into a separate read and write.",
         [S], "all executions allowed by the C++ memory model",
         "x86 hides missing orderings.",
         ["src/lightweight_barrier.cpp", "src/naive/naive_semaphore.cpp", "src/naive/naive_threadpool.cpp",
          "src/cancelable.cpp", "src/naive/naive_consumable.cpp", "src/naive/naive_operations.cpp"],
         [("atomics", "src")], (), ["every atomic access"]),
    prop("P31", "Operation wrappers call the wrapped callable once with the right arguments",
         "Executing an operation created from a function, functor, lambda or member function calls the wrapped callable "
         "exactly once with the object and parameters bound to it, in order, and iteration operations receive the index "
         "passed. Wrapping copies or moves the callable but never calls it.",
         [P, I], "all wrapper kinds and parameter counts",
         "Tests use some wrapper kinds with side effect free callables.",
         ["include/xdispatch/operation.h", "include/xdispatch/dispatch", "include/xdispatch/signals.h"],
         [("operation wrappers", "include/xdispatch/operation.h")], (), ["operation::operator()"]),
    prop("P32", "Operations for a Qt thread run in that thread's event loop",
         "Operations submitted to the Qt backend's main queue or to a queue of a given QThread are delivered as events to an "
         "object living on that thread and executed only by its event loop, each exactly once and in order of submission. "
         "Without an application object the main queue and exec() are those of the native backend. Events of somebody else "
         "never execute an operation, and an operation submitted to a queue of a thread is never dropped by the backend.",
         [S, C], "all submitting threads, before and during the life of the application object",
         "Tests run with a live application only.",
         ["src/qt5/qt5_serial_queue.cpp", "src/qt5/qt5_threadpool.cpp", "src/qt5/qt5_backend.cpp"],
         [("event posting proxy", "src/qt5/qt5_serial_queue.cpp")], (), ["qt5 queues"]),
]

# properties not decided by static analysis and why
NOT_APPLICABLE = {
}
