# hand written notes for DESIGN.md
LIMITS = {
    "P02": "operations of a manual thread which gets cancelled are exempt; a pool is assumed to outlive its threads.",
    "P03": "handlers connected in synchronous mode are exempt (documented behaviour).",
    "P08": "suspend() racing with an invocation under way may let this one through.",
    "P09": "suspend() racing with an invocation under way may let this one through.",
    "P11": "sequences of up to six calls are interpreted, two threads take turns up to three times; the list of connections is of arbitrary length.",
    "P12": "sequences of up to six calls for signals; the manager is decided for up to three (thorough: four) connections when selecting by receiver.",
    "P18": "the order of operations of different priority is decided for the search of one worker.",
    "P19": "an unavailable backend is not modelled.",
    "P26": "operations taken by a loop left by an exception and consumables of a throwing operation are not claimed.",
    "P31": "decided for the instantiations in frontend/driver.cpp: templates specialised for other types are not seen.",
    "P32": "Qt's event delivery is assumed to follow its documentation.",
}
CAUGHT = {
    "P03": "calls of user code under a lock in each component; an executed operation destroyed after the lock is taken again "
           "(drain without reset, waitable_queue without reset).",
    "P01": "two drains, pop before execution, push_front, submission without/after the lock, missing re-schedule.",
    "P02": "active+1<max, schedule before release, dropped recovery, Qt executing directly, type mismatch of events, tryStart, "
           "conditional post, missing wake up. Quiet: several refactorings.",
    "P07": "no cancel, no reset, not executed, other delay, resume before handler, wrong queue, synchronous execution.",
    "P08": "no re-check after waiting, no delay, timed wait, generation not/always increased, cancel without generation, "
           "disable missing or below the lock, completion within the scope, no scope, stale queue, late reads.",
    "P09": "wrong type or nfds, no re-check, no end on EBADF, timeout taken for readiness, ending on errors, "
           "timed or no wait, range off by one, no FD_SET, errno read late, wrong arguments.",
    "P11": "skip without restart or generation, decrement after the call, other threshold, wrong queue or group, no disable, "
           "no removal, capture by reference, wrong mode, connection list cleared, count of pending calls overwritten, "
           "decremented without or with a single compare exchange while the signal is raised or skipped.",
    "P12": "missing disable, missing check for a destroyed signal, assignments without disconnect, moved-from handles keeping "
           "their parent, inverted predicates, double disconnect reporting success.",
    "P13": "test instead of exchange, completion before the value is set, timeout altered, order of members.",
    "P15": "no or single test before waiting, push_front, missing or single notification, completion not counted.",
    "P17": "limit off by one, try before decrement, no recovery, counters not decremented, unconditional unblocking.",
    "P18": "wrong or swapped bucket, search not starting at the first, reversed, not restarted or out of bounds, unknown "
           "priorities accepted, constant priority anywhere in the flow, swapped niceness or Qt priorities. Not caught: a start "
           "of the search dependent on a member which is only set in debug mode.",
    "P19": "no or late or inverted check, timers by platform backend, other backend in after(), stored constants.",
    "P20": "comparison by label, lost or altered label, non-static or thread local shared queue, other target queue.",
    "P21": "raw `this` captured by group, timer or notifier operations, barrier in the timer or notifier not waited for or with a "
           "timeout, barrier completed before the scope of the cancelable ends, pool proxy not waiting or only for a while, threads "
           "detached instead of joined or started before their members are initialised, queue destructor not waiting for its drain or "
           "only once, drain clearing its flag around each job, queue never, twice or too early given up, queue not registered, "
           "detached queue still scheduling, final operation queued in front, manager dropping all or another entry, pool thread "
           "registered twice or not given up at its end. Quiet: flags set by hand instead of scopes, other loops in the destructor, "
           "barriers shared instead of borrowed, find_if instead of a loop.",
    "P24": "wait without predicate, conditional notify, flags changed outside of the lock.",
    "P25": "no restore, no restore on exceptions, owner lost, Qt swapped, no announcement of blocking, temporary scope.",
    "P26": "exceptions swallowed, lock held, flag not reset, scope not left.",
    "P27": "missing or late assertion, conditional use. Quiet: throwing instead of asserting.",
    "P28": "not or twice or wrongly registered, all instead of one signal's connections closed, no, conditional or queued reaction "
           "to the destruction, managers not removed or not deleted or attached by parent only, recursive search for the manager. "
           "Quiet: children of the receiver after moveToThread(), other kinds of maps, helpers.",
    "P29": "split read-modify-write, relaxed publication or consumption, store instead of compare exchange.",
    "P31": "callable called twice, never, once only, eagerly, on a copy of the object, by dangling reference, with other "
           "parameters; connected member with other queue, captured by reference; chained signal raising itself.",
    "P32": "no or conditional move to the thread, wrong thread, direct execution, varying event priority, sendEvent, "
           "foreign events executed, removal of posted events, dropped without running thread, wrong event loop.",
}
SEEDS = {}
