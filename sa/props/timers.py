"""P08 timers, P09 socket notifiers: the function starting a worker, the
operation this one executes on a thread of the pool and the operation it
submits to the target queue."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import (BASE_ASSUMPTIONS, QUEUE_IMPL, THIS, THREADPOOL, const_between, deref, same, span)
from props.signals import ANY_CANCEL_MODELS, BARRIER, CANCELABLE, plus
from props.group import forward_job
from props.queues import wrapper_const

TIMER_IMPL = "xdispatch::itimer_impl"
NOTIFIER_IMPL = "xdispatch::isocket_notifier_impl"
ERRNO = ("A#", 0, "errno")
EBADF = 9
FD_LIMIT = 1024
FOREVER = (1 << 63) - 1


# ---------------------------------------------------------------------- models
def pool_execute(eng, st, c, a):
    op = deref(eng, st, a[-2])
    eng.emit(st, "POOLEXEC", a[-3], op)
    if st.dead:
        return False
    eng.escape(st, a[-2])
    eng.escape(st, op)
    eng.havoc(st, "submitted")
    return eng.ret(st, c, None)


def queue_async(eng, st, c, a):
    op = deref(eng, st, a[-1])
    eng.emit(st, "ASYNC", a[-2], op)
    if st.dead:
        return False
    eng.escape(st, a[-1])
    eng.escape(st, op)
    eng.havoc(st, "submitted")
    return eng.ret(st, c, None)


def b_wait(eng, st, c, a):
    """whoever waits sees the operation submitted before being executed"""
    eng.emit(st, "BWAIT", a[0], a[1] if len(a) > 1 else None)
    if st.dead:
        return False
    op = st.ghost["out"]
    if op is None:
        return eng.ret(st, c, eng.result(st, c, a))
    f = eng.models.op_function(eng, st, op)
    if f is None:
        raise Broken("unknown operation submitted to the target queue")
    eng.havoc(st, "blocking")
    eng.emit(st, "BEGIN")
    if st.dead:
        return False
    eng.push_frame(st, f, [op], c, tag=("then", "nested", nested_done, c.dst))
    return not st.dead


def nested_done(eng, st, c, tag):
    eng.emit(st, "END")
    if st.dead:
        return False
    eng.havoc(st, "blocking")
    return eng.ret(st, c, 1)


def b_complete(eng, st, c, a):
    eng.emit(st, "COMPLETE", a[0])
    if st.dead:
        return False
    return eng.ret(st, c, None)


def b_completed(eng, st, c, a):
    return eng.ret(st, c, eng.result(st, c, a))


def b_dtor(eng, st, c, a):
    eng.emit(st, "BDTOR", a[0])
    if st.dead:
        return False
    return eng.ret(st, c, None)


def renew_errno(eng, st):
    n = eng.new(st, "y#", ("errno", 0))
    st.mem.setdefault(ERRNO, {})[0] = (n, 4)
    st.iv[n] = (0, 4095)
    return n


def errno_location(eng, st, c, a):
    if ERRNO not in st.mem:
        renew_errno(eng, st)
    return eng.ret(st, c, ("p", ERRNO, 0))


def select_model(eng, st, c, a):
    n = eng.new(st, "y#", ("select", 0))
    st.iv[n] = (-1, FD_LIMIT)
    eng.emit(st, "SELECT", n, *a)
    if st.dead:
        return False
    eng.havoc(st, "blocking")
    st.ghost["err"] = renew_errno(eng, st)
    st.ghost["errno"] = ("p", ERRNO, 0)
    return eng.ret(st, c, n)


WORKER_MODELS = dict(ANY_CANCEL_MODELS)
WORKER_MODELS.update({
    THREADPOOL + "::execute": pool_execute, QUEUE_IMPL + "::async": queue_async,
    BARRIER + "::complete": b_complete, BARRIER + "::wait": b_wait, BARRIER + "::was_completed": b_completed,
    BARRIER + "::~lightweight_barrier": b_dtor,
    "select": select_model, "__errno_location": errno_location,
})


def mentions(v, sym):
    return v == sym or type(v) is tuple and any(mentions(x, sym) for x in v)


class Layout:
    """members of a timer or notifier"""

    def __init__(self, ctx, cls, resume):
        p = ctx.p
        self.cls = cls
        t = ctx.cls(cls)
        cid = p.canon(t.id)
        ints = []
        self.queue = self.handler = self.interval = self.cancel = self.mutex = self.socket = self.type = None
        for n, off, tid in t.members:
            c = p.canon(tid)
            name = p.types[c].name if c >= 0 else ""
            if name in ("int", "unsigned int", "long", "unsigned long", "short"):
                if ctx.immutable(cid, n):
                    self.socket = (off, p.types[c].size)
                else:
                    ints.append((off, p.types[c].size))
            elif "shared_ptr" in name and QUEUE_IMPL in name:
                self.queue = off
            elif "shared_ptr" in name and "operation" in name:
                self.handler = off
            elif "chrono::duration" in name:
                self.interval = off
            elif name == CANCELABLE:
                self.cancel = off
            elif name == "std::mutex":
                self.mutex = off
            elif name == "xdispatch::notifier_type":
                self.type = (off, p.types[c].size)
        written = written_members(ctx, resume)
        cnt = [x for x in ints if x[0] in written]
        rest = [x for x in ints if x[0] not in written]
        if len(cnt) != 1 or len(rest) != 1:
            raise Broken("state of %s not recognised" % cls)
        self.cnt = cnt[0]
        self.cookie = rest[0]
        for k in ("queue", "handler", "cancel", "mutex"):
            if getattr(self, k) is None:
                raise Broken("member %s of %s not recognised" % (k, cls))


def written_members(ctx, f):
    """offsets of the members a function writes itself"""
    out = set()

    class Writes(Monitor):
        wants_mem = True

        def event(self, eng, st, kind, *a):
            if kind == "STORE" and is_ptr(a[0]) and a[0][1] == THIS:
                out.add(a[0][2])
    e = Engine(ctx.p, Writes(), Models(WORKER_MODELS), budget=200000)
    try:
        e.run_entry(f)
    except Budget:
        pass
    return out


class StateMonitor(Monitor):
    """how a call changes the state: the number of resumptions and the
    generation of the worker, looked at when the lock is taken and released"""

    def __init__(self, lay, kind, what):
        self.lay = lay
        self.kind = kind
        self.what = what        # timer or notifier

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def bad(self, eng, st, msg):
        return eng.violate(st, msg.replace("$", self.what))

    def start(self, eng, st):
        g = st.ghost
        g["phase"] = "api"
        g["c0"] = g["k0"] = None
        g["need"] = 0
        g["exec"] = 0
        g["sect"] = 0
        g["dis"] = 0
        g["disn"] = 0
        g["mine"] = None
        g["out"] = None
        g["err"] = None
        g["errno"] = ("p", ERRNO, 0)
        g["set"] = 0
        self.begin(eng, st)

    def begin(self, eng, st):
        pass

    def locked(self, st):
        return any(o == THIS and off == self.lay.mutex for o, off, *_ in st.locks)

    def own_lock(self, a):
        return is_ptr(a) and a[1] == THIS and a[2] == self.lay.mutex

    def val(self, eng, st, m):
        return eng.load(st, ("p", THIS, m[0]), m[1], "i%d" % (8 * m[1]))

    def ptr(self, eng, st, off):
        return eng.load(st, ("p", THIS, off), 8, "p")

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
            return
        if g["phase"] == "api":
            return self.api(eng, st, kind, a)
        return self.worker(eng, st, kind, a)

    def worker(self, eng, st, kind, a):
        pass

    def api(self, eng, st, kind, a):
        g = st.ghost
        if kind == "LOCK" and self.own_lock(a[0]):
            g["c0"] = self.val(eng, st, self.lay.cnt)
            g["k0"] = self.val(eng, st, self.lay.cookie)
            g["sect"] += 1
        elif kind == "UNLOCK" and self.own_lock(a[0]):
            self.section(eng, st)
        elif kind == "POOLEXEC":
            if self.kind != "resume":
                return self.bad(eng, st, "a $ is started by something else than resuming it")
            g["exec"] += 1
            if g["exec"] > 1:
                return self.bad(eng, st, "resuming a $ starts several workers")
            g["worker"] = a[1]
        elif kind == "ASYNC":
            return self.bad(eng, st, "the handler of a $ is submitted by a call of its user")
        elif kind == "DISABLE":
            if not (is_ptr(a[0]) and a[0][1] == THIS and a[0][2] == self.lay.cancel):
                return
            if self.locked(st):
                return self.bad(eng, st, "cancelling a $ waits for its handler while holding the lock, which "
                                "blocks when the handler uses the $")
            if self.kind == "cancel" and not g["set"]:
                # workers of another generation may not exist anymore, the
                # order does not matter as long as both happen
                pass
            g["disn"] += 1
        elif kind == "RETURN":
            self.returned(eng, st)

    def section(self, eng, st):
        g = st.ghost
        c0, k0 = g["c0"], g["k0"]
        c1, k1 = self.val(eng, st, self.lay.cnt), self.val(eng, st, self.lay.cookie)
        is_ = lambda pred, a, b: eng.cmp_truth(st, pred, a, b)
        if c0 is None:
            return
        same_c, same_k = is_("eq", c0, c1) is True, is_("eq", k0, k1) is True
        if self.kind == "resume":
            if is_("slt", c0, 0) is not False:
                if is_("slt", c1, 0) is not True:
                    return self.bad(eng, st, "a cancelled $ may be resumed again")
                self.count("resuming when cancelled")
            elif is_("eq", c0, 0) is not False:
                if is_("eq", c0, 0) is not True or is_("eq", c1, 1) is not True:
                    return self.bad(eng, st, "resuming a $ does not distinguish if it is already running")
                g["need"] += 1
                g["mine"] = k1
                self.count("resuming when suspended")
            else:
                if is_("eq", plus(c0, 1), c1) is not True:
                    return self.bad(eng, st, "resuming a running $ is not counted")
                if not same_k:
                    return self.bad(eng, st, "resuming a running $ ends its worker")
                self.count("resuming when running")
        elif self.kind == "suspend":
            if is_("sgt", c0, 0) is not True:
                if not same_c:
                    return self.bad(eng, st, "suspending a $ changes its state though it is not running")
                self.count("suspending when not running")
            else:
                if is_("eq", plus(c0, -1), c1) is not True:
                    return self.bad(eng, st, "suspending a running $ is not counted")
                end = is_("eq", c1, 0)
                if end is not False and is_("ne", k0, k1) is not True:
                    return self.bad(eng, st, "suspending a $ does not end its worker, the handler is called further "
                                    "on")
                if end is not True and not same_k:
                    return self.bad(eng, st, "a $ resumed more often than suspended ends its worker")
                self.count("suspending when running")
        elif self.kind == "cancel":
            if same_c and same_k and is_("slt", c0, 0) is not True:
                return      # another use of the lock
            if is_("slt", c1, 0) is not True:
                return self.bad(eng, st, "a cancelled $ is not marked, it may be resumed again")
            if is_("slt", c0, 0) is not True and is_("ne", k0, k1) is not True:
                return self.bad(eng, st, "cancelling a $ does not end its worker")
            g["set"] = 1
        else:
            if not same_c or not same_k:
                return self.bad(eng, st, "changing a property of a $ changes if it is running")
            self.stored(eng, st)

    def stored(self, eng, st):
        g = st.ghost
        off = {"handler": self.lay.handler, "target_queue": self.lay.queue}.get(self.kind)
        if off is not None:
            if same(eng, st, self.ptr(eng, st, off), g["arg"]):
                g["set"] = 1
        elif self.kind == "interval":
            v = eng.load(st, ("p", THIS, self.lay.interval), 8, "i64")
            if v == g["arg"] or eng.cmp_truth(st, "eq", v, g["arg"]) is True:
                g["set"] = 1

    def returned(self, eng, st):
        g = st.ghost
        if self.kind == "resume":
            if g["exec"] != g["need"]:
                return self.bad(eng, st, "resuming a suspended $ starts no worker" if g["need"] else
                                "resuming starts a worker though the $ is running or cancelled")
            if g["need"]:
                st.conts = (("exec", g["worker"], "worker"),)
                g["phase"] = "worker"
                self.begin_worker(eng, st)
        elif self.kind == "cancel":
            if not g["set"]:
                return self.bad(eng, st, "a cancelled $ is not marked, it may be resumed again")
            if g["disn"] != 1:
                return self.bad(eng, st, "cancelling a $ does not wait for its handler and does not prevent further "
                                "calls")
        elif self.kind in ("handler", "target_queue", "interval"):
            if not g["set"]:
                return self.bad(eng, st, "the %s of a $ is not what was set" % self.kind.replace("_", " "))
        self.count("calls checked: " + self.kind)

    def begin_worker(self, eng, st):
        st.conts = ()


class WorkerMonitor(StateMonitor):
    """the worker started by resuming"""

    wants_mem = True

    def __init__(self, lay, what):
        StateMonitor.__init__(self, lay, "resume", what)
        self.wants_local = lay.socket is not None

    def begin_worker(self, eng, st):
        g = st.ghost
        g["snap"] = None        # (generation, handler, queue) seen under the lock since having slept
        g["ivals"] = ()         # intervals seen since the last call
        g["slept"] = None       # what was waited for before the next call
        g["runs"] = 0
        g["nest"] = 0
        g["in"] = 0             # scopes of the cancelable entered
        g["could"] = 0
        g["ran"] = 0
        g["done"] = 0
        g["ready"] = None       # result of select
        g["fdset"] = None
        g["valid"] = 0
        g["again"] = 0
        g["fd"] = self.val(eng, st, self.lay.socket) if self.lay.socket else None
        g["kind"] = self.val(eng, st, self.lay.type) if self.lay.type else None
        g["alive"] = 1

    def worker(self, eng, st, kind, a):
        g = st.ghost
        if kind == "UNLOCK" and self.own_lock(a[0]):
            iv = eng.load(st, ("p", THIS, self.lay.interval), 8, "i64") if self.lay.interval is not None else None
            g["snap"] = (self.val(eng, st, self.lay.cookie), self.ptr(eng, st, self.lay.handler),
                         self.ptr(eng, st, self.lay.queue))
            if self.valid(eng, st):
                g["valid"] = 1
            if iv is not None:
                g["ivals"] = (g["ivals"] + (iv,))[-3:]
            return
        if kind == "LOCK":
            if ERRNO in st.mem:
                renew_errno(eng, st)
            return
        if kind == "SLEEP":
            return self.sleeping(eng, st, a[0])
        if kind == "SELECT":
            return self.selecting(eng, st, a)
        if kind == "ASYNC":
            return self.submitting(eng, st, a)
        if kind == "BWAIT":
            if self.locked(st):
                return self.bad(eng, st, "a $ waits for its handler while holding its lock, which blocks when the "
                                "handler uses the $")
            if g["out"] is None:
                return self.bad(eng, st, "the worker of a $ waits for a handler which was not submitted")
            if a[1] not in (None, -1, FOREVER):
                return self.bad(eng, st, "the worker of a $ does not wait until the handler ended, it may run "
                                "concurrently with itself")
            g["bar"] = a[0]
            return
        if kind == "BEGIN":
            g["nest"] = 1
            g["in"] = g["could"] = g["ran"] = g["done"] = 0
            return
        if kind == "END":
            if not g["done"]:
                return self.bad(eng, st, "the worker of a $ waits forever for its handler")
            if g["could"] and not g["ran"]:
                return self.bad(eng, st, "the handler of a $ is not called though it is ready")
            g["nest"] = 0
            g["out"] = None
            g["snap"] = None
            g["slept"] = None
            g["ready"] = None
            g["runs"] = 1
            self.count("handlers completed")
            return
        if g["nest"]:
            return self.nested(eng, st, kind, a)
        if kind in ("ENTER", "EXEC"):
            return self.bad(eng, st, "the handler of a $ is called by its worker and not on the target queue")
        if kind == "STORE" and g["fd"] is not None and is_ptr(a[0]) and a[0][1][0] == "A#":
            if type(a[0][2]) is not int and mentions(a[0][2], g["fd"]) and mentions(a[1], g["fd"]):
                g["fdset"] = a[0][1]
            elif a[0][1] == g["fdset"] and type(a[0][2]) is int and a[1] == 0:
                g["fdset"] = None
        if kind == "RETURN":
            return self.ended(eng, st)

    def nested(self, eng, st, kind, a):
        g = st.ghost
        if kind == "ENTER":
            if not (is_ptr(a[1]) and a[1][1] == THIS and a[1][2] == self.lay.cancel):
                return self.bad(eng, st, "the handler of a $ is guarded by something else than its cancelable")
            if g["done"]:
                return self.bad(eng, st, "the handler of a $ is called after its worker was told that it ended")
            if a[0]:
                g["in"] += 1
                g["could"] = 1
            return
        if kind == "LEAVE":
            g["in"] -= 1
            if g["done"]:
                return self.bad(eng, st, "a $ is used after its worker was told that the handler ended, it may be gone")
            return
        if kind == "EXEC":
            if g["in"] < 1:
                return self.bad(eng, st, "the handler of a $ is called though it may be cancelled")
            if g["done"]:
                return self.bad(eng, st, "the handler of a $ is called after its worker was told that it ended")
            if not same(eng, st, a[0], g["want"]):
                return self.bad(eng, st, "something else than the handler of the $ is called")
            if self.lay.socket:
                if len(a) < 3 or eng.cmp_truth(st, "eq", a[1], g["fd"]) is not True or \
                        eng.cmp_truth(st, "eq", a[2], g["kind"]) is not True:
                    return self.bad(eng, st, "the handler of a $ is called for another socket or type")
            g["ran"] += 1
            if g["ran"] > 1:
                return self.bad(eng, st, "the handler of a $ is called twice")
            self.count("handlers called")
            return
        if kind == "COMPLETE":
            if not same(eng, st, a[0], g["bar"]):
                return self.bad(eng, st, "the operation calling the handler of a $ completes another barrier")
            if g["done"]:
                return self.bad(eng, st, "the operation calling the handler of a $ uses the barrier of a worker which "
                                "may have ended")
            if g["in"]:
                return self.bad(eng, st, "the worker of a $ is told that the handler ended though it is still guarded, "
                                "the $ may be gone before the guard is left")
            g["done"] = 1
            return
        if kind in ("LOAD", "STORE", "ALOAD", "ASTORE", "RMW", "CAS") and g["done"] and is_ptr(a[0]):
            if a[0][1] == g["bar"][1] or a[0][1] == THIS and not self.owns(eng, st):
                return self.bad(eng, st, "the operation calling the handler of a $ uses what its worker may have "
                                "released already")

    def owns(self, eng, st):
        """does the operation submitted keep the object alive"""
        out = st.ghost["out"]
        if out is None:
            return False
        for off, e in st.mem.get(out[1], {}).items():
            if type(off) is int and is_ptr(e[0]) and e[0][1] == THIS and e[0][2] == 0:
                t = eng.typeat(st, ("p", out[1], off)) if hasattr(eng, "typeat") else None
                if t is None or "shared_ptr" in str(t):
                    return True
        return False

    def sleeping(self, eng, st, v):
        g = st.ghost
        if g["nest"]:
            return
        if self.locked(st):
            return self.bad(eng, st, "the worker of a $ sleeps holding its lock")
        if not g["runs"]:
            if v == g["delay"] or eng.cmp_truth(st, "eq", v, g["delay"]) is True:
                g["slept"] = "delay"
        elif any(v == x or eng.cmp_truth(st, "eq", v, x) is True for x in g["ivals"]):
            if eng.cmp_truth(st, "sgt", v, 0) is True:
                g["slept"] = "interval"
        g["snap"] = None
        g["ivals"] = ()
        self.count("times slept")

    def valid(self, eng, st):
        """did the last wait not find the descriptor to be invalid"""
        g = st.ghost
        return g["ready"] is not None and (eng.cmp_truth(st, "ne", g["ready"], -1) is True or
                                           eng.cmp_truth(st, "ne", g["err"], EBADF) is True)

    def selecting(self, eng, st, a):
        g = st.ghost
        res, n, rd, wr, ex = a[0], a[1], a[2], a[3], a[4]
        fd = g["fd"]
        if g["out"] is not None:
            return self.bad(eng, st, "the worker of a $ does not wait until the handler ended, it may run concurrently "
                            "with itself")
        if self.locked(st):
            return self.bad(eng, st, "the worker of a $ waits holding its lock")
        if g["ready"] is not None and not g["valid"] and not self.valid(eng, st):
            return self.bad(eng, st, "the worker of a $ does not end though the descriptor is invalid")
        if g["again"] and g["snap"] is None:
            return self.bad(eng, st, "the worker of a $ waits again without checking if it was suspended")
        if g["snap"] is None or eng.cmp_truth(st, "eq", g["snap"][0], g["mine"]) is not True:
            return self.bad(eng, st, "the worker of a $ waits though it may be suspended")
        lo, hi = span(eng, st, fd)
        if lo < 0 or hi >= FD_LIMIT:
            return self.bad(eng, st, "the descriptor may be out of range for select")
        if eng.cmp_truth(st, "sgt", n, fd) is not True:
            return self.bad(eng, st, "select does not look at the descriptor")
        read = eng.cmp_truth(st, "eq", g["kind"], self.lay.read)
        if read is None:
            return self.bad(eng, st, "the worker of a $ does not regard the type of notification")
        used, other = (rd, wr) if read else (wr, rd)
        if not is_ptr(used) or is_ptr(other) or is_ptr(ex) or other != 0:
            return self.bad(eng, st, "the worker of a $ waits for something else than the type of notification")
        if g["fdset"] != used[1]:
            return self.bad(eng, st, "select is not told the descriptor")
        g["fdset"] = None
        g["ready"] = res
        g["valid"] = 0
        g["snap"] = None
        g["again"] = 1
        g["slept"] = "select"
        self.count("waits for the descriptor")

    def submitting(self, eng, st, a):
        g = st.ghost
        if g["nest"]:
            return
        if g["out"] is not None:
            return self.bad(eng, st, "the handler of a $ is submitted while the previous call may not have ended")
        if g["snap"] is None:
            return self.bad(eng, st, "the handler of a $ is called without checking if it was suspended while waiting")
        if eng.cmp_truth(st, "eq", g["snap"][0], g["mine"]) is not True:
            return self.bad(eng, st, "the handler of a $ is called though it may be suspended")
        if not same(eng, st, a[0], g["snap"][2]):
            return self.bad(eng, st, "the handler of a $ is not executed on the target queue")
        if self.lay.socket:
            if g["ready"] is None or eng.cmp_truth(st, "sgt", g["ready"], 0) is not True:
                return self.bad(eng, st, "the handler of a $ is called though the descriptor is not ready")
        elif not g["slept"]:
            lo, hi = span(eng, st, g["delay"])
            if g["runs"] or hi > 0:
                return self.bad(eng, st, "the handler of a $ is called before its time")
        g["want"] = g["snap"][1]
        g["out"] = a[1]
        self.count("handlers submitted")

    def ended(self, eng, st):
        g = st.ghost
        self.count("workers ended")
        if g["out"] is not None:
            return self.bad(eng, st, "the worker of a $ ends before the handler, using its barrier afterwards")
        s = g["snap"]
        if s is not None and eng.cmp_truth(st, "ne", s[0], g["mine"]) is True:
            return      # suspended
        if self.lay.socket:
            lo, hi = span(eng, st, g["fd"])
            if hi < 0 or lo >= FD_LIMIT:
                return
            if g["ready"] is not None and eng.cmp_truth(st, "eq", g["ready"], -1) is True and \
                    eng.cmp_truth(st, "eq", g["err"], EBADF) is True:
                return
            return self.bad(eng, st, "the worker of a $ ends though it is resumed and the descriptor is valid")
        if g["runs"] and any(eng.cmp_truth(st, "sle", x, 0) is True for x in g["ivals"]):
            return      # single shot
        return self.bad(eng, st, "the worker of a $ ends though it is resumed")


METHODS = ("suspend", "cancel", "handler", "target_queue", "interval")


def impl_jobs(ctx, base, what):
    p = ctx.p
    impls = [(t, f) for t, f in ctx.overrides(base, "resume") if "xdrv" not in t.name]
    if not impls:
        raise Broken("no implementation of %s" % base)
    for t, resume in impls:
        lay = Layout(ctx, t.name, resume)
        if lay.socket:
            lay.read = dict(p.by_name["xdispatch::notifier_type"].enumerators)["READ"]
        wc = wrapper_const(ctx)

        def setup(eng, st, f, a):
            if len(a) > 1:
                v = a[1]
                if f.base in ("handler", "target_queue"):
                    v = eng.load(st, v, 8, "p")
                st.ghost["arg"] = v
                st.ghost["delay"] = v
        ctx.job(resume, lambda lay=lay: StateMonitor(lay, "resume", what), setup=setup,
                models=lambda: Models(WORKER_MODELS), label=resume.dem)
        ctx.job(resume, lambda lay=lay: WorkerMonitor(lay, what), setup=setup,
                models=lambda: Models(WORKER_MODELS), const_extra=wc, label=resume.dem + " (worker)")
        for m in METHODS:
            if m == "interval" and lay.interval is None:
                continue
            fs = [f for tt, f in ctx.overrides(base, m) if tt.id == t.id]
            if len(fs) != 1:
                raise Broken("%s::%s not found" % (t.name, m))
            ctx.job(fs[0], lambda lay=lay, m=m: StateMonitor(lay, m, what), setup=setup,
                    models=lambda: Models(WORKER_MODELS), label=fs[0].dem)
    ctx.floor("implementations of " + base, len(impls), 1)


FORWARDS = {"interval": ("val",), "resume": ("val",), "suspend": (), "cancel": (), "handler": ("sp",)}


def forwards(ctx, cls, impl, what):
    """the public class hands each call to its implementation"""
    n = 0
    for f in ctx.methods(cls):
        if f.base in FORWARDS and not f.ctor and "lambda" not in f.dem and "xdrv" not in f.dem:
            if f.base == "handler" and "shared_ptr" not in f.dem:
                continue        # templates calling the other overload
            kinds = [(FORWARDS[f.base][i - 1], i) for i in range(1, len(f.args))] if FORWARDS[f.base] else []
            forward_job(ctx, f, impl, f.base, "%s of a %s" % (f.base, what), kinds)
            n += 1
    ctx.floor("public functions of " + cls, n, 4)


def totals(ctx, what):
    for w in what:
        if not ctx.fact(w) and not ctx.violations:
            raise Broken("no %s observed" % w)


STATE_RULES = (
    "resuming starts exactly one worker if the state changes from suspended to resumed under the lock, none if it is "
    "running or was cancelled; nothing else starts one; a cancelled object stays cancelled",
    "calls of suspend and resume balance: the last suspend changes the generation, ending the worker, others do not",
    "cancelling marks the object, changes the generation and waits for the guarded handler without holding the lock",
    "handler, queue and interval are stored under the lock as given and do not affect the state; the public class "
    "forwards each call once with its arguments",
)
CALL_RULES = (
    "before each call of the handler the worker has seen, under the lock and after its last wait, that its "
    "generation is the current one; it ends when it is not",
    "the handler read in that section is submitted to the queue read in that section; it is called there, at most "
    "once, inside the scope of the cancelable and only if this was entered",
    "the barrier is completed exactly once after the scope was left, nothing the worker may have released is used "
    "afterwards; the worker waits for it without limit and without the lock, before it goes on",
)


class P08(Spec):
    id = "P08"
    explanation = (
        "Abstract interpretation of every function of the timer implementation with an automaton for number of "
        "resumptions and generation at each critical section. The operation resume() hands to the thread pool is run "
        "from the state left behind, with other threads interfering at every release of the lock; the operation this "
        "one submits to the target queue is run while it waits.")
    rules = STATE_RULES + CALL_RULES + (
        "the worker sleeps for the delay given before the first call and for the interval read under the lock before "
        "any further one, without holding the lock; it ends after the first call only if the interval is not positive",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "the thread pool executes what it is given (P17) and the target queue does (P01, P02)",
        "cancelable and barrier behave as decided by P10 and P14",
        "sleeping lasts at least as long as requested",
    ]
    requires = ("P10",)

    def check(self, ctx):
        impl_jobs(ctx, TIMER_IMPL, "timer")
        forwards(ctx, "xdispatch::timer", TIMER_IMPL, "timer")
        ctx.run()
        totals(ctx, ("resuming when suspended", "resuming when running", "resuming when cancelled",
                     "suspending when running", "times slept", "handlers submitted", "handlers called",
                     "handlers completed", "workers ended", "calls checked: cancel", "calls checked: handler",
                     "calls checked: target_queue", "calls checked: interval", "calls forwarded"))


class P09(Spec):
    id = "P09"
    explanation = (
        "Abstract interpretation of every function of the notifier implementation with an automaton for number of "
        "resumptions and generation at each critical section. The operation resume() hands to the thread pool is run "
        "from the state left behind, with select() yielding any result and error and other threads interfering at "
        "every release of the lock; the operation this one submits to the target queue is run while it waits.")
    rules = STATE_RULES + CALL_RULES + (
        "select() gets a set containing the descriptor, which is in range, as the argument matching the type, and a "
        "limit above the descriptor; the lock is not held meanwhile",
        "a call of the handler needs a positive result of select() of its own and gets the descriptor and type the "
        "notifier was created with",
        "the worker ends when the descriptor is invalid and otherwise only if suspended, not on errors or timeouts",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "the thread pool executes what it is given (P17) and the target queue does (P01, P02)",
        "cancelable and barrier behave as decided by P10 and P14",
        "select() behaves as specified by POSIX",
    ]
    requires = ("P10",)

    def check(self, ctx):
        impl_jobs(ctx, NOTIFIER_IMPL, "notifier")
        forwards(ctx, "xdispatch::socket_notifier", NOTIFIER_IMPL, "socket notifier")
        ctx.run()
        totals(ctx, ("resuming when suspended", "resuming when running", "resuming when cancelled",
                     "suspending when running", "waits for the descriptor", "handlers submitted", "handlers called",
                     "handlers completed", "workers ended", "calls checked: cancel", "calls checked: handler",
                     "calls checked: target_queue", "calls forwarded"))
