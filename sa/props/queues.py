"""Queues: handing over, iterations and delays."""
from props import Spec
from props.common import *
from props.sync import true_possible
from props.group import (GROUP_MODELS, CONSUMABLE, consumable_jobs, plus, ForwardMonitor, forward_job)
from props.sync import MAXMS

WQOP = "waitable_queue_operation"
BACKEND = "xdispatch::ibackend"
TIMER = "xdispatch::itimer_impl"
OPERATION = "xdispatch::operation"
ITERATION = "xdispatch::parameterized_operation<unsigned long>"


def later(eng, st, op, label="op", args=(), **ghost):
    """the operation is executed by somebody else, any time from now on"""
    s = st.copy()
    s.frames = []
    s.conts = ()
    s.locks = ()
    s.ghost.update(ghost)
    eng.models.run_cont(eng, s, ("exec", op, label, tuple(args)))


def opqueue_model(eng, st, c, a):
    op = deref(eng, st, a[1])
    eng.emit(st, "SUBMIT", a[0], op)
    if st.dead:
        return False
    eng.escape(st, a[1])
    eng.escape(st, op)
    eng.havoc(st, "submitted")
    return eng.ret(st, c, None)


def waitall_model(eng, st, c, a):
    eng.emit(st, "WAITALL", a[0])
    if st.dead:
        return False
    eng.havoc(st, "blocking")
    return eng.ret(st, c, None)


def timer_model(eng, st, c, a):
    """ibackend::create_timer(queue), result by hidden argument"""
    q = deref(eng, st, a[2])
    eng.escape(st, a[2])
    eng.havoc(st, "virtual call")
    eng.make_symbolic(st, a[0], -1)
    t = eng.load(st, a[0], 8, "p")
    if not eng.assume_cmp(st, "ne", t, 0) or st.dead:
        return False
    t = eng.load(st, a[0], 8, "p")
    st.typ[t[1]] = ((0, eng.p.by_name[TIMER].id),)
    eng.emit(st, "NEWTIMER", t, q)
    if st.dead:
        return False
    return eng.ret(st, c, None)


def backend_model(eng, st, c, a):
    """some backend, which one is subject of P19"""
    o = ("S#", ("backend",), 0)
    st.typ[o] = ((0, eng.p.by_name[BACKEND].id),)
    st.nn.add(o)
    return eng.ret(st, c, ("p", o, 0))


def wrapper_const(ctx):
    """members of operations which only their own execution modifies"""
    out = set()
    for t in ctx.derived(OPERATION):
        try:
            fns = [f for f in ctx.methods(t.name) if f.base == "operator()" and not f.ctor]
            out |= const_between(ctx, t.name, fns)
        except Broken:
            pass
    return out


def hand_over(eng, st, kind, a):
    """the operation an event hands to an executor, None if it does not"""
    if kind == "SUBMIT":
        return a[1]
    if kind == "VCALL" and a[0] == THREADPOOL and a[1] == "execute":
        return deref(eng, st, a[3])
    if kind == "VCALL" and a[0] == QUEUE_IMPL and a[1] == "async":
        return deref(eng, st, a[3])
    if kind == "CINSERT":
        return a[2]
    return None


# ---------------------------------------------------------------------- apply
class ApplyMonitor(Monitor):
    def __init__(self, f, exact=False):
        self.f = f
        self.exact = exact

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["phase"] = "api"
        g["next"] = None
        g["dir"] = 0
        g["news"] = None
        g["waited"] = 0
        g["ran"] = 0
        g["run"] = 0
        g["cons"] = 0
        g["kick"] = 0

    def complete(self, eng, st):
        g = st.ghost
        if g["next"] is None:
            return eng.cmp_truth(st, "eq", g["times"], 0) is True
        if g["dir"] > 0 and eng.cmp_truth(st, "eq", g["next"], g["times"]) is True:
            return True
        return g["dir"] < 0 and eng.cmp_truth(st, "eq", g["next"], -1) is True

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "CONT":
            g["phase"] = "op"
            return
        if kind == "EXEC":
            if g["phase"] == "api":
                return self.direct(eng, st, a)
            if not same(eng, st, a[0], g["op"]):
                return eng.violate(st, "apply executes something else than the operation given")
            if g["cons"]:
                return eng.violate(st, "an iteration is counted as completed before having run")
            g["ran"] += 1
            if g["ran"] > 1:
                return eng.violate(st, "an iteration of apply is executed twice")
            if len(a) < 2 or eng.cmp_truth(st, "eq", a[1], g["want"]) is not True:
                return eng.violate(st, "an iteration of apply is executed with another index than the one due")
            g["run"] = 1
            self.count("iterations executed")
            return
        if kind == "EXECRET":
            g["run"] = 0
            return
        if kind == "NEWC":
            if g["phase"] == "api":
                g["news"] = (a[0], a[1])
            return
        if kind == "CONSUME":
            if g["phase"] == "api":
                return eng.violate(st, "apply counts an iteration as completed itself")
            if g["news"] is None or not same(eng, st, a[0], g["news"][0]):
                return eng.violate(st, "an iteration is counted as completed elsewhere than apply waits")
            if g["ran"] != 1 or g["run"]:
                return eng.violate(st, "an iteration is counted as completed before having run")
            g["cons"] += 1
            if g["cons"] > 1:
                return eng.violate(st, "an iteration is counted as completed twice")
            return
        if g["phase"] == "api":
            op = hand_over(eng, st, kind, a)
            if kind == "CINSERT" and op is not None and is_ptr(a[0]) and a[0][1][0] == "A#":
                # collected before being submitted, decided for known numbers of iterations
                if not self.exact:
                    st.dead = True
                    self.count("iterations submitted")
                    self.count("iterations collected")
                return
            if op is not None:
                return self.submit(eng, st, kind, op)
        if kind == "CWAIT":
            n = g["news"]
            if n is None or not same(eng, st, a[0], n[0]):
                return eng.violate(st, "apply waits for something else than its iterations")
            if eng.cmp_truth(st, "eq", n[1], g["times"]) is not True:
                return eng.violate(st, "apply does not wait for as many completions as there are iterations")
            if not self.complete(eng, st):
                return eng.violate(st, "apply waits before all iterations have been submitted")
            if a[2] == 1:
                g["waited"] = 1
            self.count("waits")
            return
        if kind == "WAITALL":
            if not self.complete(eng, st):
                return eng.violate(st, "apply waits before all iterations have been submitted")
            g["waited"] = 2
            self.count("waits")
            return
        if kind == "NULLDEREF":
            return eng.violate(st, "apply uses a null pointer")
        if kind == "RETURN":
            if g["phase"] == "api":
                if not self.complete(eng, st):
                    return eng.violate(st, "apply does not submit all of its iterations")
                if not g["waited"] and eng.cmp_truth(st, "eq", g["times"], 0) is not True:
                    return eng.violate(st, "apply returns without waiting for its iterations")
                self.count("returns checked")
                return
            if g["ran"] != 1:
                return eng.violate(st, "an iteration of apply is not executed")
            if g["cons"] != 1 and g["counted"]:
                return eng.violate(st, "the completion of an iteration of apply is not counted")

    def advance(self, eng, st):
        """index of the iteration submitted now"""
        g = st.ghost
        if g["next"] is None:
            return None
        i = g["next"]
        g["next"] = plus(i, g["dir"])
        return i

    def begin(self, eng, st, vals):
        g = st.ghost
        last = plus(g["times"], -1)
        for v in vals:
            if eng.cmp_truth(st, "eq", v, 0) is True:
                g["next"], g["dir"] = 0, 1
                return True
        for v in vals:
            if eng.cmp_truth(st, "eq", v, last) is True:
                g["next"], g["dir"] = last, -1
                return True
        return False

    def direct(self, eng, st, a):
        return eng.violate(st, "apply executes iterations on the calling thread")

    def submit(self, eng, st, kind, op):
        g = st.ghost
        if not is_ptr(op) or eng.models.op_function(eng, st, op) is None:
            if kind == "VCALL" and not (g["kick"] and is_ptr(op) and op[1][0] == "S#"):
                return eng.violate(st, "apply submits an operation without tracking its completion")
            g["kick"] = 0        # the worker draining the list of a waitable queue
            return
        g["kick"] = int(kind == "CINSERT")
        if g["waited"]:
            return eng.violate(st, "apply submits iterations after having waited for them")
        if g["next"] is None:
            m = st.mem.get(op[1], {})
            vals = [e[0] for k, e in sorted(m.items(), key=str) if type(k) is int and k > op[2] and not is_ptr(e[0])]
            if not self.begin(eng, st, vals):
                return eng.violate(st, "the first iteration submitted by apply is neither the first nor the last one")
        i = self.advance(eng, st)
        self.count("iterations submitted")
        later(eng, st, op, want=i, phase="op", ran=0, run=0, cons=0, counted=g["news"] is not None)


def apply_jobs(ctx):
    extra = dict(GROUP_MODELS)
    extra[OPQ + "::async"] = opqueue_model
    extra[WQOP + "::wait_for_all"] = waitall_model
    cx = wrapper_const(ctx)

    def setup(eng, st, f, a, times=None):
        op = deref(eng, st, a[2])
        eng.assume_cmp(st, "ne", op, 0)
        assume_queues(eng, st, ctx.p, f.cls, ("p", THIS, 0))
        g = st.ghost
        g["op"] = op
        g["times"] = a[1]
        if times is not None:
            g["times"] = times
            return [a[0], times] + list(a[2:])
    n = 0
    top = 3 if ctx.tier == "quick" else 5
    for t, f in ctx.overrides(QUEUE_IMPL, "apply"):
        if "xdrv" in f.dem or t.name.startswith("xdrv"):
            continue
        n += 1
        ctx.job(f, lambda f=f: ApplyMonitor(f), setup=setup, label=f.dem, models=lambda: Models(extra),
                const_extra=cx)
        for k in range(top + 1):
            ctx.job(f, lambda f=f: ApplyMonitor(f, exact=True), label="%s, %d iterations" % (f.dem, k),
                    setup=lambda eng, st, f, a, k=k: setup(eng, st, f, a, k), models=lambda: Models(extra),
                    const_extra=cx, unroll=top + 3, keep_elements=lambda eng, st, p: True)
    ctx.floor("implementations of apply", n, 3)


class P06(Spec):
    id = "P06"
    requires = ('P14',)
    explanation = (
        "Abstract interpretation of every implementation of iqueue_impl::apply for a symbolic number of iterations "
        "(relational widening keeps the loop counter tied to the index handed over). Each operation submitted is "
        "analysed as continuation: it runs the operation given once, with the index due, then counts its completion "
        "once. The counter of completions (consumable) is decided on its own.")
    rules = (
        "iterations are submitted in steps of one from the first to the last (or back) index, none is left out at "
        "the wait, for every number of iterations",
        "a submitted iteration executes the operation exactly once with its index and counts its completion once "
        "afterwards",
        "apply returns only after an unlimited wait for as many completions as there are iterations, or for the "
        "queue to become empty in case of waitable queues",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "the queues execute each submitted operation once, decided by P01, P02 and P15",
        "barriers work as decided by P14",
    ]

    def check(self, ctx):
        consumable_jobs(ctx)
        apply_jobs(ctx)
        n = 0
        for f in ctx.methods("xdispatch::queue"):
            if f.base == "apply" and ITERATION in f.dem and not f.artificial and "operation_ptr" not in f.dem:
                n += 1
                forward_job(ctx, f, QUEUE_IMPL, "apply", "apply", [("val", 1), ("sp", 2)])
        if not n:
            raise Broken("queue::apply vanished")
        ctx.run()
        for what in ("iterations executed", "iterations submitted", "waits", "returns checked", "calls forwarded"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)


# ---------------------------------------------------------------------- after
class AfterMonitor(Monitor):
    """a timer of its own, serving the operation once"""

    def __init__(self, f):
        self.f = f

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["phase"] = "api"
        g["timer"] = None
        g["wrap"] = None
        g["resumed"] = 0
        g["direct"] = 0
        g["ran"] = 0
        g["stopped"] = 0

    def mine(self, eng, st, t):
        return st.ghost["timer"] is not None and same(eng, st, t, st.ghost["timer"])

    def event(self, eng, st, kind, *a):
        g = st.ghost
        api = g["phase"] == "api"
        if kind == "CONT":
            g["phase"] = "op"
            return
        if kind == "NEWTIMER":
            if not api:
                return
            if g["timer"] is not None:
                return eng.violate(st, "a delayed operation uses two timers")
            if not (is_ptr(a[1]) and a[1][1] == THIS):
                return eng.violate(st, "the timer of a delayed operation executes it on another queue")
            g["timer"] = a[0]
            self.count("timers created")
            return
        if kind == "EXEC":
            if api:
                return eng.violate(st, "a delayed operation is executed by the call submitting it")
            if not same(eng, st, a[0], g["op"]):
                return eng.violate(st, "the timer executes something else than the delayed operation")
            g["ran"] += 1
            self.count("executions")
            if g["ran"] > 1:
                return eng.violate(st, "a delayed operation is executed twice")
            return
        if kind == "VCALL" and a[0] == TIMER:
            return self.timer(eng, st, a, api)
        if api:
            op = hand_over(eng, st, kind, a)
            if op is not None and (kind != "CINSERT" or same(eng, st, op, g["op"])):
                lo, hi = span(eng, st, g["delay"])
                if hi > 0 or not same(eng, st, op, g["op"]) or g["resumed"]:
                    return eng.violate(st, "a delayed operation is submitted without its delay")
                g["direct"] += 1
                if g["direct"] > 1:
                    return eng.violate(st, "a delayed operation is submitted twice")
            return self.done_api(eng, st, kind)
        if kind == "RETURN":
            if g["ran"] != 1:
                return eng.violate(st, "a delayed operation is not executed when its timer expires")
            if not g["stopped"]:
                return eng.violate(st, "the timer of a delayed operation is not cancelled after having expired")
            t = g["timer"]
            for off, e in st.mem.get(g["wrap"][1], {}).items():
                if type(off) is int and is_ptr(e[0]) and e[0][1] == t[1]:
                    return eng.violate(st, "a delayed operation keeps its timer, both own each other and leak")
            self.count("expirations checked")
        elif kind == "NULLDEREF":
            return eng.violate(st, "a delayed operation uses a null pointer")

    def done_api(self, eng, st, kind):
        g = st.ghost
        if kind == "RETURN":
            if g["direct"]:
                return
            if not g["resumed"]:
                return eng.violate(st, "the timer of a delayed operation is not started")
        elif kind == "NULLDEREF":
            return eng.violate(st, "after uses a null pointer")

    def timer(self, eng, st, a, api):
        g = st.ghost
        m = a[1]
        if not self.mine(eng, st, a[2]):
            return eng.violate(st, "a delayed operation modifies a timer of somebody else")
        if not api:
            if m == "cancel":
                g["stopped"] = 1
                self.count("cancellations")
            elif m in ("resume", "handler"):
                return eng.violate(st, "the timer of a delayed operation is started again")
            return
        if m == "handler":
            if g["resumed"]:
                return eng.violate(st, "the timer of a delayed operation is started before it has a handler")
            g["wrap"] = deref(eng, st, a[3])
            return
        if m == "target_queue":
            q = deref(eng, st, a[3])
            if not (is_ptr(q) and q[1] == THIS):
                return eng.violate(st, "the timer of a delayed operation executes it on another queue")
            return
        if m == "resume":
            if g["wrap"] is None:
                return eng.violate(st, "the timer of a delayed operation is started before it has a handler")
            if g["resumed"]:
                return eng.violate(st, "the timer of a delayed operation is started twice")
            if eng.cmp_truth(st, "eq", a[3], g["delay"]) is not True:
                return eng.violate(st, "the timer of a delayed operation is started with another delay")
            g["resumed"] = 1
            self.count("timers started")
            if eng.models.op_function(eng, st, g["wrap"]) is None:
                return eng.violate(st, "a delayed operation is executed by each expiration of its timer")
            st.conts = (("exec", g["wrap"], "op"),)
            return
        if m in ("cancel", "suspend"):
            return eng.violate(st, "the timer of a delayed operation is stopped by the call submitting it")


def after_jobs(ctx):
    extra = dict(GROUP_MODELS)
    extra[OPQ + "::async"] = opqueue_model
    extra[BACKEND + "::create_timer"] = timer_model
    extra["xdispatch::backend_for_type"] = backend_model
    cx = wrapper_const(ctx)

    def setup(eng, st, f, a):
        op = deref(eng, st, a[2])
        eng.assume_cmp(st, "ne", op, 0)
        base = ("p", THIS, 0)
        assume_queues(eng, st, ctx.p, f.cls, base)
        g = st.ghost
        g["op"] = op
        g["delay"] = a[1]
    n = 0
    for t, f in ctx.overrides(QUEUE_IMPL, "after"):
        if "xdrv" in f.dem or t.name.startswith("xdrv"):
            continue
        n += 1
        ctx.job(f, lambda f=f: AfterMonitor(f), setup=setup, label=f.dem, models=lambda: Models(extra), const_extra=cx)
    ctx.floor("implementations of after", n, 3)


class P07(Spec):
    id = "P07"
    requires = ("P08", "P10")
    explanation = (
        "Abstract interpretation of every implementation of iqueue_impl::after with a typestate automaton for the "
        "timer serving the delay; the handler given to the timer is analysed as continuation executed by it.")
    rules = (
        "one timer is created for this very queue, gets its handler before it is started once with the delay "
        "requested; the operation is not executed or submitted by the call",
        "the handler executes the operation exactly once, cancels the timer and gives up its ownership",
    )
    assumptions = BASE_ASSUMPTIONS + ["timers keep their contract as decided by P08"]

    def check(self, ctx):
        after_jobs(ctx)
        n = 0
        for f in ctx.methods("xdispatch::queue"):
            if f.base == "after" and "std::shared_ptr<xdispatch::operation> const&" in f.dem and not f.artificial:
                n += 1
                forward_job(ctx, f, QUEUE_IMPL, "after", "after", [("val", 1), ("sp", 2)])
        if not n:
            raise Broken("queue::after vanished")
        ctx.run()
        for what in ("timers created", "timers started", "executions", "cancellations", "expirations checked",
                     "calls forwarded"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)


# ------------------------------------------------------------------- waitable
class WaitableMonitor(Monitor):
    """list of operations, flag of the active thread and number of completions
    not waited for, all guarded by one lock"""
    wants_mem = True

    def __init__(self, spec, f, kind):
        self.f = f
        self.kind = kind          # drain, one, all, add
        self.cls = spec[0]
        self.lst = spec[1]
        self.flag = spec[2]
        self.cnt = spec[3]

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["own"] = 0
        g["seen"] = None           # the flag as read under the lock held
        g["num"] = None            # completions as read under the lock held
        g["op"] = None             # operation taken
        g["ran"] = 0
        g["add"] = 0
        g["ntf"] = 1
        g["idle"] = 0
        g["took"] = 0
        g["ins"] = 0
        g["w"] = None

    def off(self, eng, st, p):
        """offset within the worker or None"""
        if not is_ptr(p) or type(p[2]) is not int or p[1][0] in ("A#", "G#"):
            return None
        c, rel = eng.typeat(st, p[1], p[2])
        if c < 0 or eng.p.canon(c) != self.cls:
            return None
        st.ghost["w"] = ("p", p[1], p[2] - rel)
        return rel

    def locked(self, st):
        w = st.ghost["w"]
        return w is not None and any(l[0] == w[1] for l in st.locks)

    def forget(self, g):
        g["seen"] = None
        g["num"] = None
        g["idle"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind in ("LOAD", "STORE"):
            o = self.off(eng, st, a[0])
            if o is None or o not in (self.flag, self.cnt):
                return
            if not self.locked(st):
                return eng.violate(st, "the state of a waitable queue is accessed without its lock")
            if o == self.flag:
                return self.on_flag(eng, st, kind, a[1])
            return self.on_count(eng, st, kind, a[1])
        if kind in ("LOCK", "CVWOKEN"):
            m = a[0] if kind == "LOCK" else a[1]
            if self.off(eng, st, m) is not None:
                self.forget(g)
            return
        if kind in ("UNLOCK", "CVWAIT"):
            m = a[0] if kind == "UNLOCK" else a[1]
            if self.off(eng, st, m) is not None:
                # what is known when the lock is released for the last time
                g["idle"] = 1 if self.is_idle(eng, st) else 0
                if kind == "CVWAIT":
                    self.count("blocking waits")
                    if g["own"]:
                        return eng.violate(st, "a thread waits while being the one to execute operations")
                    if g["seen"] is None or eng.cmp_truth(st, "ne", g["seen"], 0) is not True:
                        return eng.violate(st, "waits for another thread which is not known to execute an operation")
                    if a[2] and False:
                        pass
            return
        if kind == "NOTIFY" and self.off(eng, st, a[0]) is not None:
            if a[1] == "notify_all":
                g["ntf"] = 1
            return
        if kind == "CREAD" and self.off(eng, st, a[0]) == self.lst:
            if not self.locked(st):
                return eng.violate(st, "operations of a waitable queue are accessed without its lock")
            return
        if kind == "CINSERT" and self.off(eng, st, a[0]) == self.lst:
            if not self.locked(st):
                return eng.violate(st, "operations of a waitable queue are accessed without its lock")
            if self.kind != "add" or not same(eng, st, a[2], g["op0"]):
                return eng.violate(st, "a waitable queue stores something else than the operation submitted")
            if a[1] != "back":
                return eng.violate(st, "a waitable queue does not keep the order of the operations submitted")
            g["ins"] += 1
            self.count("operations stored")
            return
        kind, a = taken_first(kind, a)
        if kind == "CPOP" and self.off(eng, st, a[0]) == self.lst:
            if not self.locked(st):
                return eng.violate(st, "operations of a waitable queue are accessed without its lock")
            if a[1] != "pop_front":
                return eng.violate(st, "a waitable queue does not execute operations in the order submitted")
            if not g["own"]:
                return eng.violate(st, "an operation of a waitable queue is taken by a thread which is not the one "
                                       "to execute operations")
            if g["op"] is not None:
                return eng.violate(st, "an operation taken from a waitable queue is not executed")
            g["op"] = ("p", ("S#", ("ld", a[3][1], 0), 0), 0)
            self.count("operations taken")
            return
        if kind in ("CCLEAR", "CERASE", "CSWAP", "CMOVE", "CSPLICE", "CCHANGE") and \
                (self.off(eng, st, a[0]) == self.lst or kind in ("CSWAP", "CMOVE", "CSPLICE") and
                 self.off(eng, st, a[1]) == self.lst):
            return eng.violate(st, "operations of a waitable queue are not taken one by one (%s)" % kind)
        if kind == "EXEC":
            if self.kind == "add":
                return eng.violate(st, "an operation is executed by the call submitting it to a waitable queue")
            if not g["own"]:
                return eng.violate(st, "an operation of a waitable queue is executed by a thread which does not "
                                       "exclude others")
            if self.locked(st):
                return eng.violate(st, "an operation is executed while holding the lock of its waitable queue")
            if g["op"] is None or not same(eng, st, g["op"], a[0]):
                return eng.violate(st, "a waitable queue executes something else than the operation taken")
            g["op"] = None
            g["ran"] += 1
            self.count("executions")
            return
        if kind == "RETURN":
            return self.leave(eng, st)

    def is_idle(self, eng, st):
        g = st.ghost
        if g["seen"] is None or eng.cmp_truth(st, "eq", g["seen"], 0) is not True:
            return False
        w = g["w"]
        return w is not None and empty(eng, st, ("p", w[1], w[2] + self.lst)) is True

    def on_flag(self, eng, st, kind, v):
        g = st.ghost
        if kind == "LOAD":
            g["seen"] = v
            return
        if eng.cmp_truth(st, "ne", v, 0) is True:
            if g["own"] or g["seen"] is None or eng.cmp_truth(st, "eq", g["seen"], 0) is not True:
                return eng.violate(st, "a thread starts executing operations without having seen that nobody else "
                                       "does, they may run concurrently")
            g["own"] = 1
            g["ran"] = 0
            g["add"] = 0
            self.count("activations")
        elif eng.cmp_truth(st, "eq", v, 0) is True:
            if not g["own"]:
                return eng.violate(st, "a thread which is not executing operations lets others execute some")
            if g["op"] is not None:
                return eng.violate(st, "an operation taken from a waitable queue is not executed")
            if g["ran"] != g["add"]:
                return eng.violate(st, "the completions of a waitable queue are not counted")
            g["own"] = 0
            g["ntf"] = 0
        else:
            return eng.violate(st, "unknown value for the flag of a waitable queue")
        g["seen"] = v

    def on_count(self, eng, st, kind, v):
        g = st.ghost
        if kind == "LOAD":
            g["num"] = v
            return
        if g["num"] is None:
            return eng.violate(st, "the number of completions is overwritten without regarding its value")
        up = eng.cmp_truth(st, "eq", v, plus(g["num"], 1)) is True
        down = eng.cmp_truth(st, "eq", v, plus(g["num"], -1)) is True
        if up and g["own"]:
            g["add"] += 1
            if g["add"] > g["ran"]:
                return eng.violate(st, "a completion is counted without an operation having been executed")
            self.count("completions counted")
        elif down:
            if self.kind not in ("one", "all"):
                return eng.violate(st, "a completion is consumed without waiting for it")
            if eng.cmp_truth(st, "ne", g["num"], 0) is not True:
                return eng.violate(st, "a completion is consumed which did not happen")
            g["took"] = 1
            self.count("completions consumed")
        else:
            return eng.violate(st, "the number of completions is changed by an unknown amount")
        g["num"] = v

    def leave(self, eng, st):
        g = st.ghost
        if g["own"]:
            return eng.violate(st, "a thread ends executing operations of a waitable queue without letting others do so")
        if g["op"] is not None:
            return eng.violate(st, "an operation taken from a waitable queue is not executed")
        if not g["ntf"]:
            return eng.violate(st, "threads waiting for a waitable queue are not notified")
        if self.kind == "one" and not g["took"] and not g["idle"]:
            return eng.violate(st, "wait_for_one returns though no operation completed and some are left")
        if self.kind == "all" and not g["idle"]:
            return eng.violate(st, "wait_for_all returns without having seen the queue idle and empty")
        if self.kind == "add" and g["ins"] != 1:
            return eng.violate(st, "an operation submitted to a waitable queue is not stored")
        self.count("returns checked: " + self.kind)


class P15(Spec):
    id = "P15"
    explanation = (
        "Abstract interpretation of the public functions of waitable queues and of the operation they have executed by "
        "the wrapped queue, with an automaton for list, flag of the active thread and completions.")
    rules = (
        "list, flag and number of completions are accessed under the lock only; operations are appended and taken "
        "from the front one by one",
        "only a thread which has set the flag, seen reset under the same lock, takes and executes operations, each "
        "once and unlocked; it counts it and resets the flag, notifying all waiting threads",
        "wait_for_one returns having consumed a completion or having seen the queue idle and empty under the lock, "
        "wait_for_all only having seen it idle and empty",
        "async stores the operation before it requests exactly one execution from the wrapped queue",
    )
    assumptions = BASE_ASSUMPTIONS + ["the wrapped queue executes what it is given (P02)"]

    def check(self, ctx):
        from props.pool import HandoverMonitor
        p = ctx.p
        found = []
        for t in ctx.derived(OPERATION):
            if t.name.startswith(("xdrv", "xdispatch::naive::")):
                continue
            l = member_offsets(p, t.id, is_op_container)
            if l:
                found.append((t, l))
        if len(found) != 1 or len(found[0][1]) != 1:
            raise Broken("the operation of waitable queues is not recognised")
        t, l = found[0]
        flags = [off for n, off, tid in t.members if p.types[p.canon(tid)].name == "bool"]
        cnts = [off for n, off, tid in t.members
                if p.types[p.canon(tid)].name in ("unsigned long", "int", "unsigned int", "long", "size_t")]
        if len(flags) != 1 or len(cnts) != 1:
            raise Broken("state of waitable queues not recognised")
        spec = (p.canon(t.id), l[0][0], flags[0], cnts[0])
        n = 0
        for f in ctx.methods(t.name):
            if f.base == "operator()":
                n += 1
                ctx.job(f, lambda: WaitableMonitor(spec, f, "drain"), label=f.dem)
        ctx.floor("operations draining waitable queues", n, 1)

        def assume(eng, st, f, a):
            assume_queues(eng, st, p, f.cls, ("p", THIS, 0))
            if len(a) > 1:
                op = deref(eng, st, a[1])
                eng.assume_cmp(st, "ne", op, 0)
                st.ghost["op0"] = st.ghost["op"] = op
        impl = [(c, f) for c, f in ctx.overrides(QUEUE_IMPL, "async") if "waitable" in f.dem and "xdrv" not in f.dem]
        if len(impl) != 1:
            raise Broken("implementation of waitable queues not recognised")
        f = impl[0][1]

        def add_setup(eng, st, f, a):
            assume(eng, st, f, a)
            st.ghost["op"] = None
        # (start() follows the setup)
        ctx.job(f, lambda: WaitableMonitor(spec, f, "add"), setup=add_setup, label=f.dem)
        ctx.job(f, lambda: HandoverMonitor(f), setup=assume, label=f.dem + " (hand over)")
        for name, kind in (("wait_for_one", "one"), ("wait_for_all", "all")):
            k = 0
            for w in ctx.methods(impl[0][0].name):
                if w.base == name:
                    k += 1
                    ctx.job(w, lambda kind=kind, w=w: WaitableMonitor(spec, w, kind), setup=assume, label=w.dem)
            if not k:
                raise Broken("%s of waitable queues vanished" % name)
        ctx.run()
        for what in ("operations stored", "operations taken", "executions", "activations", "completions counted",
                     "completions consumed", "blocking waits", "operations handed on"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)
