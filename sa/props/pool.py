"""Thread pools: nothing gets lost (P02) and threads are accounted exactly (P17)."""
from props import Spec
from props.common import *
from props.sync import SEMAPHORE
from props.group import forward_job
from props.queues import (hand_over, opqueue_model, wrapper_const, backend_model, OPERATION)

MANAGER = "xdispatch::naive::operation_queue_manager"
ATOMIC_INT = "std::atomic<int>"


# ------------------------------------------------------------------ models
def sem_release(eng, st, c, a):
    n = a[1] if len(a) > 1 else 1
    eng.emit(st, "SEMREL", a[0], n)
    if st.dead:
        return False
    eng.havoc(st, "released")
    return eng.ret(st, c, None)


def sem_acquire(how):
    def model(eng, st, c, a):
        def one(v):
            def fn(s):
                eng.emit(s, "TICKET", a[0], v, how)
                return "DEAD" if s.dead else v
            return fn
        eng.havoc(st, "blocking")
        return eng.fork(st, c, [one(1), one(0)])
    return model


def manager_model(what):
    def model(eng, st, c, a):
        eng.emit(st, "MANAGER", what, *a[1:])
        if st.dead:
            return False
        for x in a[1:]:
            eng.escape(st, x)
        eng.havoc(st, "manager")
        return eng.ret(st, c, None)
    return model


SEM_MODELS = {
    SEMAPHORE + "::release": sem_release,
    SEMAPHORE + "::try_acquire": sem_acquire("try"),
    SEMAPHORE + "::spin_acquire": sem_acquire("spin"),
    SEMAPHORE + "::wait_acquire": sem_acquire("wait"),
    MANAGER + "::attach": manager_model("attach"),
    MANAGER + "::detach": manager_model("detach"),
}
SEQ = ("seq_cst",)


def delta(eng, st, new, old):
    """constant difference of two values or None"""
    if isinstance(new, int) and isinstance(old, int):
        return new - old
    b, k = (new[1], new[2]) if isinstance(new, tuple) and new and new[0] == "+" else (new, 0)
    b2, k2 = (old[1], old[2]) if isinstance(old, tuple) and old and old[0] == "+" else (old, 0)
    return k - k2 if b == b2 else None


# ------------------------------------------------------------ discovering
class RoleMonitor(Monitor):
    """which counter of the pool is which"""

    def __init__(self):
        self.data = {"rmw": [], "thread": set()}

    def start(self, eng, st):
        st.ghost["thr"] = 0

    def event(self, eng, st, kind, *a):
        if kind == "THREAD":
            st.ghost["thr"] = 1
            self.data["thread"].add(thread_function(eng, st, a[0]))
        if kind in ("RMW", "CAS") and is_ptr(a[0]) and type(a[0][2]) is int and a[0][1][0] == "S#":
            old, new = (a[3], a[4]) if kind == "RMW" else (a[1], a[2])
            d = delta(eng, st, new, old)
            self.data["rmw"].append((a[0][2], d, st.ghost["thr"]))


class Roles:
    pass


def pool_classes(ctx):
    """pools starting threads of their own: (class, execute, blocked, unblocked)"""
    out = []
    for t, f in ctx.overrides(THREADPOOL, "execute"):
        if "xdrv" in f.dem:
            continue
        out.append((t, f))
    return out


def find_roles(ctx):
    p = ctx.p
    r = Roles()
    r.blocked = [(t, f) for t, f in ctx.overrides(THREADPOOL, "notify_thread_blocked") if "xdrv" not in f.dem]
    r.unblocked = {t.name: f for t, f in ctx.overrides(THREADPOOL, "notify_thread_unblocked")}
    ex = {t.name: f for t, f in ctx.overrides(THREADPOOL, "execute")}
    n0 = len(ctx.results)
    v0 = list(ctx.violations)
    for t, f in r.blocked:
        ctx.job(f, RoleMonitor, label="B " + t.name, models=lambda: Models(SEM_MODELS))
    for n, f in ex.items():
        ctx.job(f, RoleMonitor, label="E " + n, models=lambda: Models(SEM_MODELS))
    res = ctx.run()
    ctx.results = ctx.results[:n0]
    ctx.violations = v0
    d = {x["label"]: x["data"]["rmw"] for x in res}
    th = {x["label"]: x["data"]["thread"] for x in res}
    r.cls = None
    for t, f in r.blocked:
        mx = {o for o, k, thr in d["B " + t.name] if k == 1 and not thr}
        act = {o for o, k, thr in d["E " + t.name] if k == 1}
        if act and mx:
            r.cls = t
            r.fblocked = f
            # the limit is what only announcing raises
            r.max = sorted(mx - act) or sorted(mx)
            r.active = sorted(act)
            break
    if r.cls is None:
        for t, f in r.blocked:
            if any(k == 1 and not thr for o, k, thr in d["B " + t.name]) and not th["E " + t.name]:
                ctx.violate("operations are queued but no thread is ever started for them", "?",
                            ex[t.name].dem)
                return None
        raise Broken("the pool starting threads has not been recognised")
    r.fexecute = ex[r.cls.name]
    r.funblocked = r.unblocked[r.cls.name]
    r.runs = []
    for n in sorted(x for x in th["E " + r.cls.name] if x):
        f = p.funcs.get(n)
        # threads serving other purposes do not know about the counters
        if f is not None:
            r.runs.append(f)
    if not r.runs:
        raise Broken("function of the pool's threads not recognised")
    if len(r.max) != 1 or len(r.active) != 1 or r.max == r.active:
        raise Broken("counters of the pool not recognised (limit %s, active %s)" % (r.max, r.active))
    r.max, r.active = r.max[0], r.active[0]
    return r


def thread_function(eng, st, state):
    """name of the function a new thread is going to run"""
    if not is_ptr(state):
        return None
    m = st.mem.get(state[1], {})
    for off, e in m.items():
        if type(off) is int and isinstance(e[0], tuple) and e[0] and e[0][0] == "f":
            return e[0][1]
    e = m.get(state[2])
    if e is not None and is_ptr(e[0]) and e[0][1][0] == "G#":
        v = eng.p.globals[e[0][1][1]]["initmap"].get(e[0][2] + 16)
        if v is not None and v[0] == "f":
            return v[1]
    return None


# ------------------------------------------------------------ pool, P02 + P17
class PoolMonitor(Monitor):
    def __init__(self, r, kind, p02):
        self.r = r
        self.kind = kind          # execute, blocked, unblocked
        self.p02 = p02

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["enq"] = 0
        g["rel"] = 0
        g["thr"] = 0
        g["act"] = 0
        g["max"] = 0
        g["seen"] = ()
        g["relaxed"] = 0
        g["resv"] = 0

    def counter(self, ptr):
        if not (is_ptr(ptr) and ptr[1][0] == "S#" and type(ptr[2]) is int):
            return None
        if ptr[2] == self.r.max:
            return "max"
        if ptr[2] == self.r.active:
            return "active"
        return ptr[2]

    def see(self, st, k, v, order):
        g = st.ghost
        s = dict(g["seen"])
        s[k] = (v, order, g["rel"], g["max"])
        g["seen"] = tuple(sorted(s.items(), key=repr))

    def idle(self, k):
        return k in self.r.idle

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "ALOAD":
            k = self.counter(a[0])
            if k is not None:
                self.see(st, k, a[1], a[2])
            return
        if kind in ("RMW", "CAS"):
            k = self.counter(a[0])
            if k is None:
                return
            if kind == "CAS":
                if not a[3]:
                    self.see(st, k, a[5], a[6][1])
                    return
                old, new, order = a[1], a[2], a[6][0]
            else:
                old, new, order = a[3], a[4], a[5]
            d = delta(eng, st, new, old)
            if k in ("max", "active") and d is None:
                return eng.violate(st, "a counter of the pool's threads is not changed by a known amount")
            if k == "max":
                g["max"] += d
                self.see(st, k, new, order)
                self.count("limit changes")
            elif k == "active":
                g["act"] += d
                if d > 0 and not g["thr"]:
                    # a thread is accounted before it is started
                    self.see(st, k, old, order)
                    g["resv"] = 1
                self.count("thread count changes")
            elif self.idle(k):
                return eng.violate(st, "the number of idle threads is changed by somebody else than these threads")
            return
        if kind == "ASTORE" and self.counter(a[0]) in ("max", "active"):
            return eng.violate(st, "a counter of the pool's threads is overwritten without regarding its value")
        if kind == "ASTORE" and self.idle(self.counter(a[0])):
            return eng.violate(st, "the number of idle threads is overwritten without regarding its value")
        if kind == "ENQ":
            if self.kind != "execute":
                return eng.violate(st, "an operation is queued by something else than execute")
            if not same(eng, st, a[1], g["op"]):
                return eng.violate(st, "something else than the operation submitted is queued to the pool")
            if a[2]:
                g["enq"] += 1
                self.count("operations queued")
                if g["enq"] > 1:
                    return eng.violate(st, "an operation is queued to the pool twice")
            return
        if kind == "SEMREL":
            if eng.cmp_truth(st, "eq", a[1], 1) is not True:
                return eng.violate(st, "the number of operations queued is not raised by exactly one")
            g["rel"] += 1
            if self.kind != "execute" or g["rel"] > 1:
                return eng.violate(st, "the number of operations queued is raised without having queued one")
            return
        if kind == "EXEC":
            return eng.violate(st, "an operation is executed by the call submitting it to the pool")
        if kind == "THREAD":
            n = thread_function(eng, st, a[0])
            if n is not None and n not in {f.name for f in self.r.runs}:
                return
            g["thr"] += 1
            self.count("threads started")
            if g["thr"] > 1:
                return eng.violate(st, "two threads are started for a single operation")
            if not self.p02:
                s = dict(g["seen"])
                if "active" not in s or "max" not in s:
                    return eng.violate(st, "a thread is started without looking at the limit of the pool")
                if eng.cmp_truth(st, "slt", s["active"][0], s["max"][0]) is not True:
                    return eng.violate(st, "a thread is started without having seen the number of threads below the "
                                           "limit of the pool")
                if self.kind == "blocked" and s["max"][3] != 1 and not s["max"][0]:
                    pass
            return
        if kind == "RETURN":
            return self.leave(eng, st)

    def woken(self, eng, st):
        """is somebody known to take care of what was queued"""
        g = st.ghost
        if g["thr"]:
            return "started"
        s = dict(g["seen"])
        for k, (v, order, rel, mx) in s.items():
            if self.idle(k) and eng.cmp_truth(st, "sgt", v, 0) is True:
                if order not in SEQ or (self.kind == "execute" and not rel):
                    g["relaxed"] = 1
                    continue
                return "idle"
        if "active" in s and "max" in s:
            if eng.cmp_truth(st, "sge", s["active"][0], s["max"][0]) is True:
                if self.kind == "execute" and not s["active"][2]:
                    return None
                if self.kind == "execute" and s["active"][1] not in SEQ:
                    g["relaxed"] = 1
                    return None
                return "limit"
        return None

    def leave(self, eng, st):
        g = st.ghost
        if self.p02:
            if self.kind == "execute":
                if g["enq"] != 1:
                    return eng.violate(st, "an operation submitted to the pool is not queued")
                if g["rel"] != 1:
                    return eng.violate(st, "the operation queued is not announced to the threads of the pool")
            if self.kind in ("execute", "blocked"):
                w = self.woken(eng, st)
                if w is None:
                    if g["relaxed"]:
                        return eng.violate(st, "the threads available are counted without sequentially consistent "
                                               "ordering after queueing, the operation may be overlooked")
                    return eng.violate(st, "the pool neither starts a thread for the operations queued nor is one "
                                           "known to be idle or the limit to be reached")
                self.count("woken: " + w)
            return
        want = {"execute": 0, "blocked": 1, "unblocked": -1}[self.kind]
        if g["max"] != want:
            return eng.violate(st, "the limit of threads is changed by %d instead of %d" % (g["max"], want))
        if g["act"] != g["thr"]:
            return eng.violate(st, "%d threads are started but the number of threads is changed by %d" % (
                g["thr"], g["act"]))
        self.count("balances checked")


class WorkerMonitor(Monitor):
    """the function executed by the threads of a pool"""

    def __init__(self, r, p02):
        self.r = r
        self.p02 = p02

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["ticket"] = 0
        g["op"] = None
        g["done"] = 0
        g["act"] = 0
        g["idle"] = 0
        g["cancel"] = None
        g["last"] = 1              # nothing left seen after having been uncounted
        g["weak"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        r = self.r
        if kind == "ALOAD" and is_ptr(a[0]) and a[0][1][0] == "S#" and type(a[0][2]) is int:
            if a[0][2] in r.flags:
                g["cancel"] = a[1]
            return
        if kind in ("RMW", "CAS") and is_ptr(a[0]) and a[0][1][0] == "S#" and type(a[0][2]) is int:
            off = a[0][2]
            if kind == "CAS":
                if not a[3]:
                    return
                old, new, order = a[1], a[2], a[6][0]
            else:
                old, new, order = a[3], a[4], a[5]
            d = delta(eng, st, new, old)
            if off == r.max:
                return eng.violate(st, "the limit of threads is changed by a thread of the pool")
            if off == r.active or off in r.idle:
                if d is None:
                    return eng.violate(st, "a counter of the pool's threads is not changed by a known amount")
                k = "act" if off == r.active else "idle"
                if not self.p02:
                    g[k] = g[k] + d if isinstance(g[k], int) else ("many",)
                if d < 0:
                    g["last"] = 0
                    if order not in SEQ:
                        g["weak"] = 1
                if k == "idle" and d < 0 and g["ticket"]:
                    # leaves the idle state to execute something
                    g["weak"] = 0
                    g["last"] = 1
                self.count("counter changes")
                if not self.p02 and (g["act"] not in (0, -1) or g["idle"] not in (0, 1)):
                    return eng.violate(st, "a thread of the pool is counted more than once")
            return
        if kind == "ASTORE" and is_ptr(a[0]) and type(a[0][2]) is int and a[0][1][0] == "S#" and \
                (a[0][2] in (r.max, r.active) or a[0][2] in r.idle):
            return eng.violate(st, "a counter of the pool's threads is overwritten without regarding its value")
        if kind == "TICKET":
            if g["ticket"] or g["op"] is not None:
                if self.p02:
                    return eng.violate(st, "a thread of the pool takes the next operation before having executed the "
                                           "one it took, which is lost")
            if a[1]:
                g["ticket"] = 1
                self.count("operations taken")
                g["last"] = 1
                g["weak"] = 0
            else:
                g["last"] = 1 if not g["weak"] else 0
            return
        if kind == "DEQ":
            if not self.p02:
                g["op"] = a[1] if len(a) > 1 else 1
                g["ticket"] = 0
                return
            if not g["ticket"]:
                return eng.violate(st, "a thread of the pool takes an operation which it did not acquire")
            g["ticket"] = 0
            g["op"] = a[1]
            self.count("operations dequeued")
            return
        if kind == "EXEC":
            if not self.p02:
                if g["act"] or g["idle"]:
                    return eng.violate(st, "an operation is executed by a thread which is not counted as active")
                self.count("executions")
                return
            if g["op"] is None or not self.deq(eng, st, a[0]):
                return eng.violate(st, "a thread of the pool executes something else than what it took or executes "
                                       "it twice")
            g["op"] = None
            self.count("executions")
            return
        if kind == "RETURN":
            return self.leave(eng, st)

    def deq(self, eng, st, op):
        g = st.ghost
        want = g["op"]
        return same(eng, st, want, op)

    def leave(self, eng, st):
        g = st.ghost
        cancelled = g["cancel"] is not None and eng.cmp_truth(st, "ne", g["cancel"], 0) is True
        if self.p02:
            if (g["ticket"] or g["op"] is not None) and not cancelled:
                return eng.violate(st, "a thread of the pool ends without having executed the operation it took")
            self.count("thread ends checked")
        if cancelled:
            return
        if self.p02:
            if not g["last"]:
                return eng.violate(st, "a thread of the pool ends without having looked for operations after it has "
                                       "been counted as gone, one queued meanwhile is never executed")
            return
        if g["act"] != -1:
            return eng.violate(st, "a thread of the pool ends without being removed from the number of threads")
        if g["idle"] != 0:
            return eng.violate(st, "a thread of the pool ends being counted as idle")
        if not g["last"]:
            return eng.violate(st, "a thread of the pool ends without having looked for operations after it has been "
                                   "counted as gone")
        self.count("thread ends checked")


class FlagMonitor(Monitor):
    """idle counters and flags used by the threads"""

    def __init__(self, r):
        self.r = r
        self.data = {"rmw": set(), "load": set()}

    def event(self, eng, st, kind, *a):
        if not a or not is_ptr(a[0]) or type(a[0][2]) is not int or a[0][1][0] != "S#":
            return
        if kind in ("RMW", "CAS"):
            self.data["rmw"].add(a[0][2])
        elif kind == "ALOAD":
            self.data["load"].add(a[0][2])


def pool_jobs(ctx, p02, only=None):
    p = ctx.p
    r = find_roles(ctx)
    if r is None:
        return None
    n0 = len(ctx.results)
    v0 = list(ctx.violations)
    for f in r.runs:
        ctx.job(f, lambda: FlagMonitor(r), label=f.dem, models=lambda: Models(SEM_MODELS))
    res = ctx.run()
    ctx.results = ctx.results[:n0]
    ctx.violations = v0
    rmw, load = set(), set()
    r.runs = [f for f in r.runs if any(x["label"] == f.dem and r.active in x["data"]["rmw"] for x in res)]
    if not r.runs:
        raise Broken("function of the pool's threads not recognised")
    for x in res:
        if r.active not in x["data"]["rmw"]:
            continue
        rmw |= x["data"]["rmw"]
        load |= x["data"]["load"]
    r.idle = rmw - {r.max, r.active}
    r.flags = load - rmw - {r.max, r.active}
    if not r.idle:
        raise Broken("the number of idle threads of the pool is not recognised")

    def setup(eng, st, f, a):
        i = op_index(p, f)
        if i is not None:
            op = deref(eng, st, a[i])
            eng.assume_cmp(st, "ne", op, 0)
            st.ghost["op"] = op
    fns = [("execute", r.fexecute), ("blocked", r.fblocked)]
    if only:
        fns = [x for x in fns if x[0] == only]
    elif not p02:
        fns.append(("unblocked", r.funblocked))
    for kind, f in fns:
        ctx.job(f, lambda k=kind: PoolMonitor(r, k, p02), label=f.dem, setup=setup, models=lambda: Models(SEM_MODELS))
    for f in r.runs if not only else ():
        ctx.job(f, lambda: WorkerMonitor(r, p02), label=f.dem, models=lambda: Models(SEM_MODELS))
    ctx.counts["idle counters"] = len(r.idle)
    return r


def op_index(p, f):
    di = f.di[1:]
    for i, t in enumerate(di):
        c = p.canon(t)
        if c >= 0 and p.types[c].tag in (TAG_REF, TAG_RREF):
            c = p.canon(p.types[c].base)
        if c >= 0 and "shared_ptr<xdispatch::operation>" in p.types[c].name:
            return i
    return None


class P17(Spec):
    id = "P17"
    explanation = (
        "Abstract interpretation of the functions of the pool starting threads and of the function these threads run, "
        "with counting automata for the atomic counters (limit, active, idle; recognised by their use).")
    rules = (
        "a thread is only started having seen the number of threads below the limit and is counted exactly once",
        "announcing a blocking thread raises the limit by one, its end lowers it by one",
        "a thread executes operations being counted as active and not idle only",
        "a thread ends being removed from both counters and only after having looked for operations in vain afterwards",
    )
    assumptions = BASE_ASSUMPTIONS + ["the semaphore keeps its contract as decided by P16"]

    def check(self, ctx):
        if pool_jobs(ctx, False) is None:
            raise Broken("the pool starting threads has not been recognised")
        ctx.run()
        for what in ("threads started", "balances checked", "executions", "thread ends checked", "counter changes"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)


# ------------------------------------------------------------ P02, queues
class HandoverMonitor(Monitor):
    """async of a queue hands the operation to exactly one executor"""

    def __init__(self, f):
        self.f = f

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["n"] = 0
        g["stored"] = 0
        g["carrier"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "EXEC":
            return eng.violate(st, "an operation is executed by the call submitting it to a queue")
        op = hand_over(eng, st, kind, a)
        if op is not None:
            if same(eng, st, op, g["op"]):
                if kind == "CINSERT":
                    if is_ptr(a[0]) and a[0][1][0] == "A#":
                        return        # a local copy
                    g["stored"] += 1
                else:
                    g["n"] += 1
                if g["n"] + g["stored"] > 1:
                    return eng.violate(st, "an operation submitted to a queue is handed on twice")
                self.count("operations handed on")
            elif kind != "CINSERT":
                if not g["stored"]:
                    return eng.violate(st, "a queue hands on something else than the operation submitted")
                g["carrier"] += 1
                if g["carrier"] > 1:
                    return eng.violate(st, "two executions are requested for a single operation")
            return
        if kind == "RETURN":
            if g["n"] + g["stored"] != 1:
                return eng.violate(st, "an operation submitted to a queue is not handed on")
            if g["stored"] and g["carrier"] != 1:
                return eng.violate(st, "an operation is stored but its execution is not requested")


class ExecutorMonitor(Monitor):
    """execute of a pool which does not start threads on its own"""

    def __init__(self, ctx, t, f):
        self.ctx = ctx
        self.t = t
        self.f = f

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["phase"] = "api"
        g["n"] = 0
        g["woken"] = 1
        g["ran"] = 0
        g["keep_globals"] = 1

    def once(self, eng, st):
        g = st.ghost
        g["n"] += 1
        self.count("operations handed on")
        if g["n"] > 1:
            return eng.violate(st, "an operation is handed to an executor twice")

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "CONT":
            g["phase"] = "op"
            self.count("deliveries")
            return
        if kind == "EXEC" or kind == "ICALL" and g["phase"] == "op":
            if g["phase"] == "api":
                return eng.violate(st, "an operation is executed by the call submitting it to an executor")
            if kind == "EXEC" and not same(eng, st, a[0], g["op"]):
                return eng.violate(st, "an executor executes something else than the operation submitted")
            g["ran"] += 1
            if g["ran"] > 1:
                return eng.violate(st, "an executor executes an operation twice")
            return
        if g["phase"] == "op":
            if kind == "RETURN" and g["ran"] != 1:
                return eng.violate(st, "an operation is not executed when delivered to its thread")
            return
        if kind == "CINSERT":
            if is_ptr(a[0]) and a[0][1] == THIS:
                if not same(eng, st, a[2], g["op"]):
                    return eng.violate(st, "an executor stores something else than the operation submitted")
                if a[1] != "back":
                    return eng.violate(st, "an executor does not keep the order of the operations submitted")
                g["woken"] = 0
                g["size"] = eng.models.size(eng, st, a[0])
                return self.once(eng, st)
        elif kind == "NOTIFY":
            if is_ptr(a[0]) and a[0][1] == THIS:
                g["woken"] = 1
        elif kind == "EXT" and a[0] == "QCoreApplication::postEvent":
            if not (is_ptr(a[1]) and a[1][1] == THIS):
                return eng.violate(st, "an operation is posted to an object of somebody else")
            fn = self.handler()
            if fn is None:
                return eng.violate(st, "events posted are not handled")
            st.conts = (("call", fn.name, (self.whole(eng, st, fn), a[2])),)
            return self.once(eng, st)
        elif kind == "EXT" and a[0] in ("QThreadPool::start", "QThreadPool::tryStart"):
            fn = self.runnable(eng, st, a[2])
            if fn is None:
                return eng.violate(st, "something unknown is handed to a Qt thread pool")
            if a[0] == "QThreadPool::tryStart":
                return eng.violate(st, "an operation is dropped if a Qt thread pool is busy")
            st.conts = (("call", fn.name, (a[2],)),)
            return self.once(eng, st)
        elif kind == "VCALL" and a[0] == THREADPOOL and a[1] == "execute":
            if not same(eng, st, deref(eng, st, a[3]), g["op"]):
                return eng.violate(st, "an executor hands on something else than the operation submitted")
            return self.once(eng, st)
        elif kind == "RETURN":
            if g["n"] != 1:
                return eng.violate(st, "an operation submitted to an executor is dropped")
            if not g["woken"] and eng.cmp_truth(st, "sgt", g["size"], 1) is not True:
                # (nobody waits as long as there is something stored already)
                return eng.violate(st, "the thread executing the operation submitted is not woken")

    def handler(self):
        fs = {f.base: f for f in self.ctx.methods(self.t.name) if f.base in ("event", "customEvent")}
        return fs.get("event") or fs.get("customEvent")

    def whole(self, eng, st, fn):
        return ("p", THIS, 0)

    def runnable(self, eng, st, r):
        if not is_ptr(r):
            return None
        e = st.mem.get(r[1], {}).get(r[2])
        if e is None or not is_ptr(e[0]) or e[0][1][0] != "G#":
            return None
        v = eng.p.globals[e[0][1][1]]["initmap"].get(e[0][2])
        return eng.p.funcs.get(v[1]) if v is not None and v[0] == "f" else None


def event_model(eng, st, c, a):
    """QEvent::QEvent(type): the type is a 16 bit number"""
    v = a[1]
    if not isinstance(v, int):
        eng.assume_cmp(st, "sge", v, 0)
        eng.assume_cmp(st, "sle", v, 65535)
    eng.emit(st, "EXT", "QEvent::QEvent", *a)
    if st.dead:
        return False
    t = eng.p.by_name.get("QEvent")
    off = [o for n, o, tid in t.members if n == "t"] if t is not None else []
    if off and is_ptr(a[0]):
        eng.store(st, ("p", a[0][1], a[0][2] + off[0]), v, 2)
    return eng.ret(st, c, None)


def qt_const(ctx):
    """an event does not change its type"""
    t = ctx.p.by_name.get("QEvent")
    return {(t.id, "t")} if t is not None else set()


QT_MODELS = {"QEvent::QEvent": event_model}


class SweepMonitor(Monitor):
    """a thread executing the operations stored by somebody else"""

    def __init__(self, lists):
        self.lists = lists

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["held"] = None           # local container of operations taken
        g["cur"] = None            # its element to be executed next
        g["ran"] = 1
        g["one"] = None            # single operation taken
        g["next"] = None

    def own(self, p):
        return is_ptr(p) and p[1] == THIS and p[2] in self.lists

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "CSWAP" or kind == "CMOVE":
            p, q = a[0], a[1]
            if self.own(p) or self.own(q):
                own, other = (p, q) if self.own(p) else (q, p)
                if g["held"] is not None or g["one"] is not None:
                    return eng.violate(st, "operations are taken before the ones taken earlier were executed")
                if empty(eng, st, own) is not True:
                    return eng.violate(st, "operations are exchanged with ones which were executed already")
                if empty(eng, st, other) is True:
                    return
                g["held"] = other
                g["cur"] = None
                g["ran"] = 1
                g["next"] = None
                self.count("operations taken")
            elif g["held"] is not None and (same(eng, st, p, g["held"]) or same(eng, st, q, g["held"])):
                g["held"] = q if same(eng, st, p, g["held"]) else p
            return
        kind, a = taken_first(kind, a)
        if kind == "CPOP" and self.own(a[0]):
            if a[1] != "pop_front":
                return eng.violate(st, "operations are not executed in the order of submission")
            if g["one"] is None and null(eng, st, a[2]) is not True:
                g["one"] = a[2]
            elif g["one"] is not None and g["one"] != a[2] and null(eng, st, a[2]) is not True:
                return eng.violate(st, "operations are taken before the ones taken earlier were executed")
            self.count("operations taken")
            return
        if kind in ("CCLEAR", "CERASE", "CCHANGE", "CINSERT", "CKERASE") and self.own(a[0]):
            return eng.violate(st, "operations are removed without being executed or added by the thread "
                                   "executing them (%s)" % kind)
        if kind == "CITER" and self.held(eng, st, a[0]):
            if a[2] == "first":
                if g["cur"] is not None:
                    return eng.violate(st, "operations taken are executed twice")
            elif not g["ran"]:
                return eng.violate(st, "an operation taken is skipped")
            g["cur"] = a[1]
            g["ran"] = 0
            return
        if kind == "CITEREND" and self.held(eng, st, a[0]):
            if not g["ran"]:
                return eng.violate(st, "an operation taken is skipped")
            g["held"] = None
            g["cur"] = None
            return
        if kind == "CINDEX" and self.held(eng, st, a[0]):
            i = a[1]
            if not g["ran"]:
                if g["cur"] == a[2]:
                    return
                return eng.violate(st, "an operation taken is skipped")
            want = 0 if g["next"] is None else g["next"]
            if eng.cmp_truth(st, "eq", i, want) is not True:
                return eng.violate(st, "operations taken are not executed one after the other")
            g["cur"] = a[2]
            g["ran"] = 0
            g["next"] = plus1(i)
            return
        if kind == "EXEC":
            if g["held"] is not None and g["cur"] is not None:
                if g["ran"]:
                    return eng.violate(st, "an operation is executed twice")
                if not same(eng, st, deref(eng, st, g["cur"]), a[0]):
                    return eng.violate(st, "something else than the operation due is executed")
                g["ran"] = 1
            elif g["one"] is not None:
                if not same(eng, st, g["one"], a[0]):
                    return eng.violate(st, "something else than the operation due is executed")
                g["one"] = None
            else:
                return eng.violate(st, "an operation is executed which was not taken from those submitted")
            self.count("executions")
            return
        if kind in ("CDTOR", "CCLEAR") and self.held(eng, st, a[0]):
            n = eng.models.size(eng, st, a[0])
            if g["next"] is not None and g["ran"] and eng.cmp_truth(st, "sge", g["next"], n) is True:
                g["held"] = None
                return
            if g["cur"] is None and empty(eng, st, a[0]) is True:
                g["held"] = None
                return
            return eng.violate(st, "operations taken are dropped without being executed")
        if kind == "RETURN":
            if g["held"] is not None or g["one"] is not None:
                return eng.violate(st, "operations taken are dropped without being executed")
            self.count("ends checked")

    def held(self, eng, st, p):
        return st.ghost["held"] is not None and same(eng, st, p, st.ghost["held"])


def plus1(v):
    if isinstance(v, int):
        return v + 1
    if isinstance(v, tuple) and v and v[0] == "+":
        return ("+", v[1], v[2] + 1)
    return ("+", v, 1)


class OnceMonitor(Monitor):
    """executes the operation given once"""

    def start(self, eng, st):
        st.ghost["ran"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "EXEC":
            if not same(eng, st, a[0], g["op"]):
                return eng.violate(st, "something else than the operation given is executed")
            g["ran"] += 1
            self.facts["executions"] = self.facts.get("executions", 0) + 1
        elif kind == "RETURN" and g["ran"] != 1:
            return eng.violate(st, "the operation given is executed %d times" % g["ran"])


class P02(Spec):
    id = "P02"
    requires = ("P17", "P16", "P01", "P21.queue", "P15")
    explanation = (
        "Linear typestate of operations, decided by abstract interpretation of every function accepting one: the public "
        "API, every implementation of iqueue_impl::async and of ithreadpool::execute, and of everything taking them out "
        "of the containers, queues, events and runnables they are stored in.")
    rules = (
        "the public API forwards each operation once to the implementation",
        "every queue hands an operation to exactly one executor and never executes it itself",
        "every executor stores or posts it exactly once and wakes its thread; the event or runnable executes it once",
        "the pool queues it, announces it and then either starts a thread or has seen an idle one or the limit reached",
        "threads acquire, dequeue and execute one operation after the other and do not end with one in hand, nor "
        "without having looked for operations after they were counted as gone",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "the semaphore keeps its contract as decided by P16, operation queues theirs as decided by P01, waitable "
        "queues as decided by P15",
        "operations still queued to a thread which is cancelled or destroyed are exempt",
    ]

    def check(self, ctx):
        p = ctx.p
        r = pool_jobs(ctx, True)
        if r is None:
            return
        # public API
        n = 0
        for f in ctx.methods("xdispatch::queue"):
            if f.base == "async" and "std::shared_ptr<xdispatch::operation> const&" in f.dem and not f.artificial:
                n += 1
                forward_job(ctx, f, QUEUE_IMPL, "async", "async", [("sp", 1)])
        ctx.floor("public functions taking operations", n, 1)

        def setup(eng, st, f, a):
            op = deref(eng, st, a[1])
            eng.assume_cmp(st, "ne", op, 0)
            st.ghost["op"] = op
            assume_queues(eng, st, p, f.cls, ("p", THIS, 0))
        # queues
        extra = {OPQ + "::async": opqueue_model}
        n = 0
        for t, f in ctx.overrides(QUEUE_IMPL, "async"):
            if "xdrv" in f.dem:
                continue
            n += 1
            ctx.job(f, lambda f=f: HandoverMonitor(f), setup=setup, label=f.dem, models=lambda: Models(extra))
        ctx.floor("implementations of queues", n, 2)
        # executors
        n = 0
        seen = set()
        lists = {}
        for t, f in ctx.overrides(THREADPOOL, "execute"):
            if "xdrv" in f.dem or f.name in seen or f.name == r.fexecute.name:
                continue
            seen.add(f.name)
            n += 1
            ctx.job(f, lambda t=t, f=f: ExecutorMonitor(ctx, t, f), setup=setup, label=f.dem,
                    models=lambda: Models(QT_MODELS), const_extra=qt_const(ctx))
            for off, name in member_offsets(p, f.cls, is_op_container):
                lists.setdefault(p.canon(f.cls), set()).add(off)
        ctx.floor("executors", n, 1)
        # threads executing what was stored
        n = 0
        for c, offs in lists.items():
            for f in ctx.methods(p.types[c].name):
                if f.acc == 3 and not f.ctor and not f.base.startswith("~") and \
                        f.base not in ("execute", "notify_thread_blocked", "notify_thread_unblocked", "cancel"):
                    n += 1
                    ctx.job(f, lambda offs=offs: SweepMonitor(offs), label=f.dem)
        ctx.floor("threads executing stored operations", n, 1)
        for key in ("xdispatch::naive::ithreadpool::run_with_threadpool", "xdispatch::execute_operation_on_this_thread"):
            for f in ctx.fn(key):
                if "parameterized" in f.dem:
                    continue

                def one(eng, st, f, a):
                    st.ghost["op"] = a[0]
                ctx.job(f, OnceMonitor, setup=one, label=f.dem)
        ctx.run()
        for what in ("operations queued", "executions", "operations handed on", "deliveries", "operations taken",
                     "operations dequeued", "calls forwarded", "thread ends checked", "ends checked"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)
