"""P18: priorities are mapped in order and passed on unchanged."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import BASE_ASSUMPTIONS, QUEUE_IMPL, THIS, THREADPOOL, deref, same
from props.pool import (MANAGER, QT_MODELS, SEM_MODELS, RoleMonitor, manager_model, qt_const)

PRIO = "xdispatch::queue_priority"
BACKEND = "xdispatch::ibackend"
# from the most urgent to the least urgent one
ORDER = ("USER_INTERACTIVE", "USER_INITIATED", "DEFAULT", "UTILITY", "BACKGROUND")


def flat(a):
    for x in a:
        if type(x) is tuple and x and type(x[0]) is tuple:
            yield from flat(x)
        else:
            yield x


def quiet_manager(eng, st, c, a):
    """keeps queues alive, does not change them"""
    return eng.ret(st, c, None)


def setpriority_model(eng, st, c, a):
    eng.emit(st, "EXT", "setpriority", *a)
    if st.dead:
        return False
    return eng.ret(st, c, eng.result(st, c, a))


def pool_model(eng, st, c, a):
    """what a pool does is analysed separately"""
    eng.emit(st, "VCALL", THREADPOOL, "execute", *a)
    return eng.ret(st, c, None)


MANAGE = {MANAGER + "::attach": quiet_manager, MANAGER + "::detach": quiet_manager}


def prio_type(p, tid):
    """is it a priority or a reference to one"""
    c = p.canon(tid) if tid is not None and tid >= 0 else -1
    return c >= 0 and p.types[c].name == PRIO


def prio_args(p, f):
    """indices of the arguments (without hidden ones) which are priorities"""
    return [k for k, d in enumerate(f.di[1:]) if prio_type(p, d)]


def arg_index(f, k):
    return k + (1 if f.argattrs and f.argattrs[0] == "sret" else 0)


class SinkMonitor(Monitor):
    """where a priority ends"""

    def __init__(self, kind):
        self.kind = kind
        self.data = {"sinks": {}}

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def add(self, eng, st, sink, v):
        self.data["sinks"].setdefault((sink, v), eng.site(st))
        self.count("uses of priorities")

    def event(self, eng, st, kind, *a):
        if kind == "ENQ":
            if type(a[0][2]) is not int:
                return eng.violate(st, "a priority which is not part of the enumeration selects storage which does not "
                                       "exist")
            self.add(eng, st, "queue", a[0][2])
        elif kind == "EXT" and a[0] in ("QThreadPool::start", "QThreadPool::tryStart"):
            self.add(eng, st, "Qt priority", a[3] if len(a) > 3 else 0)
        elif kind == "EXT" and a[0] == "setpriority":
            if eng.cmp_truth(st, "eq", a[1], 0) is not True:  # PRIO_PROCESS
                return eng.violate(st, "the priority of something else than a thread is changed")
            v = a[3]
            if isinstance(v, int):
                self.add(eng, st, ("niceness", None), v)
            elif isinstance(v, tuple) and v[0] == "+":
                self.add(eng, st, ("niceness", "base"), v[2])
            elif isinstance(v, tuple) and v[0] == "y#":
                self.add(eng, st, ("niceness", "base"), 0)
            else:
                self.add(eng, st, ("niceness", None), ("?", v))
        elif kind == "VCALL" and a[0] == BACKEND:
            v = [x for x in a[3:] if isinstance(x, int)]
            if a[1] in ("create_parallel_queue", "create_serial_queue") and v:
                self.add(eng, st, a[1], v[-1])


class ScanMonitor(Monitor):
    """the order in which a worker looks for operations"""

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        st.ghost["last"] = None
        st.ghost["first"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TICKET" and a[1] == 1:
            g["last"] = None
            g["first"] = 1
        elif kind in ("DEQ", "DEQFAIL"):
            off = a[0][2] if is_ptr(a[0]) else None
            if type(off) is not int or off < self.lo or off > self.hi:
                return eng.violate(st, "a worker looks for operations where none are stored")
            if g["first"] and g["last"] is None:
                if off != self.best:
                    return eng.violate(st, "a worker does not look for the most urgent operations first")
                self.count("searches started")
            elif g["last"] is not None and off != self.next(g["last"]):
                return eng.violate(st, "a worker does not look for operations in the order of their priorities")
            self.count("places searched")
            g["last"] = None if kind == "DEQ" else off
            if kind == "DEQ":
                g["first"] = 0

    def next(self, off):
        if off not in self.order:
            return None
        i = self.order.index(off)
        return self.order[(i + 1) % len(self.order)]


class FlowMonitor(Monitor):
    """creates a queue, submits an operation to it and observes the priority"""

    def __init__(self, ctx, f, opnd):
        self.ctx = ctx
        self.f = f
        self.k = opnd

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["keep_globals"] = 1
        g["phase"] = "create"
        g["seen"] = 0
        g["pool"] = None

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
            return
        if kind == "VCALL" and a[0] == BACKEND and a[1] in ("create_parallel_queue", "create_serial_queue"):
            if not any(same(eng, st, x, g["prio"]) for x in a[3:]):
                return eng.violate(st, "a queue is created with another priority than the one given")
            g["seen"] = 1
            self.count("priorities passed on")
        elif kind == "VCALL" and a[0] == THREADPOOL and a[1] == "execute":
            if g["phase"] != "use":
                return
            if not same(eng, st, a[4], g["prio"]):
                return eng.violate(st, "operations of a queue are submitted with another priority than the queue was "
                                       "created with")
            g["seen"] = 1
            self.count("priorities passed on")
        elif kind == "ICALL" and g["phase"] == "create" and any(same(eng, st, x, g["prio"]) for x in flat(a)):
            # the backend has just been loaded
            g["seen"] = 1
        elif kind == "EXT" and a[0] == "QCoreApplication::postEvent":
            g["seen"] = 1
        elif kind == "CONT":
            g["phase"] = "use"
        elif kind == "RETURN":
            if g["phase"] == "use":
                if not g["seen"]:
                    return eng.violate(st, "an operation submitted to a queue is not handed to its executor")
                self.count("flows followed")
                return
            t, ptr = self.impl(eng, st)
            if t is None:
                if not g["seen"]:
                    return eng.violate(st, "a queue is created without regarding the priority")
                return
            af = self.async_of(t)
            if af is None:
                raise Broken("how %s executes operations" % t.name)
            op = ("S#", ("userop",), 0)
            ref = ("A#", 0, "useropref")
            st.mem.setdefault(op, {})
            st.nn.add(op)
            st.mem[ref] = {0: (("p", op, 0), 8), 8: (("p", ("PI#", op), 0), 8)}
            g["ref"] = ("p", ref, 0)
            st.conts = (("call", af.name, (ptr, ("p", ref, 0))),)

    def async_of(self, t):
        for x, f in self.ctx.overrides(QUEUE_IMPL, "async"):
            if x.name == t.name:
                return f
        return None

    def impl(self, eng, st):
        """the object implementing the queue created"""
        p = self.ctx.p
        for t in self.ctx.derived(QUEUE_IMPL):
            boff = p.base_offset(t.id, self.ctx.cls(QUEUE_IMPL).id)
            vt = p.vtable(t.id, boff)
            if not vt:
                continue
            for o, m in st.mem.items():
                if o[0] != "H#":
                    continue
                for off, e in m.items():
                    if type(off) is int and is_ptr(e[0]) and e[0][1] == ("G#", vt[0]) and e[0][2] == vt[1]:
                        return t, ("p", o, off)
        return None, None


class MemberMonitor(Monitor):
    """constructors storing the priority"""

    def __init__(self, off):
        self.off = off

    def event(self, eng, st, kind, *a):
        if kind != "RETURN":
            return
        e = st.mem.get(THIS, {}).get(self.off)
        if e is None or not same(eng, st, e[0], st.ghost["prio"]):
            return eng.violate(st, "another priority than the one given is stored")
        self.facts["priorities stored"] = self.facts.get("priorities stored", 0) + 1


class P18(Spec):
    id = "P18"
    technique = "abstract interpretation with constant propagation over all enumerators and dataflow of the priority"
    explanation = (
        "Every function using a priority is interpreted abstractly once per enumerator (and once for values which are "
        "not part of the enumeration), what it is mapped to is compared with the order of the enumerators. The workers "
        "of the pool are interpreted to obtain the order in which they look for operations. The priority given when "
        "creating a queue is followed up to where its operations are submitted.")
    rules = (
        "the places operations are stored at by priority are searched by the workers starting with the most urgent one "
        "and a more urgent priority is never stored behind a less urgent one",
        "the priority handed to QThreadPool and the niceness of threads are monotone in the priority",
        "the global queue of a priority is created with a priority of the same rank",
        "queues submit their operations with the priority they were created with, factories pass it on unchanged",
        "values which are not part of the enumeration never select a place to store operations at",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "the priorities of QThreadPool and setpriority are as documented (higher and lower is more urgent, respectively)"]

    def check(self, ctx):
        p = ctx.p
        t = p.by_name.get(PRIO)
        if t is None or not t.enumerators:
            raise Broken("the priorities have not been recognised")
        enum = {n: v for n, v in t.enumerators}
        if set(ORDER) - set(enum) or set(enum) - set(ORDER):
            raise Broken("the priorities are %s" % sorted(enum))
        self.sinks(ctx, enum)
        self.flows(ctx)
        self.members(ctx, enum)

    # ------------------------------------------------------------------
    def sinks(self, ctx, enum):
        p = ctx.p
        fs = [("execute", f) for t, f in ctx.overrides(THREADPOOL, "execute") if "xdrv" not in f.dem]
        fs += [("nice", f) for f in ctx.fn("xdispatch::thread_utils::set_current_thread_priority")]
        fs += [("global", f) for f in ctx.fn("xdispatch::global_queue")]
        for what, f in fs:
            ks = prio_args(p, f)
            if len(ks) != 1:
                raise Broken("priority of " + f.dem)
            i = arg_index(f, ks[0])
            for n in ORDER + (None,):
                def setup(eng, st, f, a, n=n, i=i):
                    a = list(a)
                    if n is None:
                        for v in enum.values():
                            eng.assume_cmp(st, "ne", a[i], v)
                    else:
                        a[i] = enum[n]
                    return a
                models = dict(SEM_MODELS, setpriority=setpriority_model)
                models.update(QT_MODELS)
                ctx.job(f, lambda what=what: SinkMonitor(what), setup=setup, label="%s %s" % (n, f.dem),
                        models=lambda m=models: Models(m), const_extra=qt_const(ctx))
        res = {r["label"]: r["data"]["sinks"] for r in ctx.run()}
        self.buckets = None
        n = 0
        for what, f in fs:
            maps = {}
            known = {v for e in ORDER for sink, v in res["%s %s" % (e, f.dem)] if sink == "queue"}
            for (sink, v), site in res["None " + f.dem].items():
                if sink == "queue" and v not in known:
                    ctx.violate("a priority which is not part of the enumeration selects storage which does not exist",
                                site, f.dem)
            for e in ORDER:
                for (sink, v), site in res["%s %s" % (e, f.dem)].items():
                    maps.setdefault(sink, {}).setdefault(e, {})[v] = site
            for sink, m in sorted(maps.items(), key=repr):
                name = sink[0] if type(sink) is tuple else sink
                n += 1
                for e in ORDER:
                    if e not in m and name == "niceness":
                        m[e] = {0: "%s:%d" % (f.file, f.line)}  # left as it is
                    if e not in m:
                        ctx.violate("nothing is done for priority %s (%s)" % (e, name), "%s:%d" % (f.file, f.line), f.dem)
                    elif len(m[e]) > 1 or not isinstance(list(m[e])[0], int):
                        ctx.violate("priority %s is mapped to several values (%s)" % (e, name),
                                    list(m[e].values())[0], f.dem)
                if ctx.violations:
                    return
                vals = [list(m[e])[0] for e in ORDER]
                ctx.samples.append("%s of %s: %s" % (name, f.dem.split("(")[0],
                                                     ", ".join("%s=%s" % x for x in zip(ORDER, vals))))
                if name == "queue":
                    self.scan(ctx, f, dict(zip(ORDER, vals)))
                elif name in ("create_parallel_queue", "create_serial_queue"):
                    rank = {enum[x]: i for i, x in enumerate(ORDER)}
                    for e, v in zip(ORDER, vals):
                        # the default is as urgent as utilities for queues
                        if v != enum[e] and not (e == "DEFAULT" and v == enum["UTILITY"]):
                            ctx.violate("the global queue for %s is created with another priority" % e,
                                        m[e][v], f.dem)
                else:
                    up = name == "Qt priority"
                    for i in range(len(vals) - 1):
                        if (vals[i] < vals[i + 1]) if up else (vals[i] > vals[i + 1]):
                            ctx.violate("%s is ranked below %s (%s %s and %s)" % (
                                ORDER[i], ORDER[i + 1], name, vals[i], vals[i + 1]), m[ORDER[i]][vals[i]], f.dem)
                    if vals[0] == vals[-1]:
                        ctx.violate("all priorities are mapped to the same value (%s)" % name,
                                    m[ORDER[0]][vals[0]], f.dem)
        ctx.counts["mappings of priorities"] = n
        ctx.floor("mappings of priorities", n, 3)

    def scan(self, ctx, f, places):
        """workers look at the places in the order of the priorities"""
        p = ctx.p
        offs = []
        for e in ORDER:
            if places[e] not in offs:
                offs.append(places[e])
        ctx.job(f, RoleMonitor, label="threads", models=lambda: Models(SEM_MODELS))
        n0, v0 = len(ctx.results), list(ctx.violations)
        thr = sorted({x for r in ctx.run() for x in r["data"]["thread"] if x in p.funcs})
        del ctx.results[n0:]
        ctx.violations = v0
        # a priority must not return to a place left for a less urgent one
        for i, e in enumerate(ORDER):
            for later in ORDER[i + 1:]:
                if offs.index(places[later]) < offs.index(places[e]):
                    ctx.violate("%s is stored along with more urgent operations than %s" % (later, e),
                                "%s:%d" % (f.file, f.line), f.dem)
        if len(offs) == 1:
            ctx.violate("all priorities are stored at the same place", "%s:%d" % (f.file, f.line), f.dem)
        k = 0
        for name in thr:
            g = p.funcs[name]

            def factory():
                m = ScanMonitor(min(offs), max(offs), 0)
                m.order = offs
                m.best = offs[0]
                return m
            ctx.job(g, factory, label="search " + g.dem, models=lambda: Models(SEM_MODELS), unroll=len(offs) + 3)
        ctx.run()
        if not ctx.fact("places searched") and not ctx.violations:
            raise Broken("the search for operations has not been observed")

    # ------------------------------------------------------------------
    def flows(self, ctx):
        p = ctx.p
        n = 0
        models = dict(QT_MODELS)
        for t, f in ctx.overrides(THREADPOOL, "execute"):
            models[f.key] = pool_model
        for f in sorted(p.funcs.values(), key=lambda f: f.dem):
            if not f.blocks or "/repo/" not in (f.file or "") or "xdrv" in f.dem or "/frontend/" in f.file:
                continue
            if not (prio_args(p, f) and self.makes_queue(p, f)):
                continue
            i = arg_index(f, prio_args(p, f)[0])
            n += 1

            def setup(eng, st, f, a, i=i):
                st.ghost["prio"] = a[i]
                st.ghost["created"] = a[0]
                for k, x in enumerate(a):
                    if k != i and is_ptr(x):
                        d = st.mem.get(x[1], {}).get(x[2])
                        eng.assume_cmp(st, "ne", x, 0)
            if f.key == "xdispatch::global_queue":
                continue
            ctx.job(f, lambda f=f, i=i: FlowMonitor(ctx, f, i), setup=setup, label="flow " + f.dem,
                    models=lambda: Models(dict(MANAGE, **models)), const_extra=qt_const(ctx), sequential=True)
        ctx.floor("functions creating queues", n, 3)
        ctx.run()
        for what in ("priorities passed on", "flows followed"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)

    @staticmethod
    def makes_queue(p, f):
        c = p.canon(f.di[0]) if f.di and f.di[0] >= 0 else -1
        if c >= 0 and p.types[c].name in ("xdispatch::queue", "std::shared_ptr<xdispatch::iqueue_impl>"):
            return True
        return f.ctor and f.key == "xdispatch::queue::queue"

    def members(self, ctx, enum):
        """threads take on the priority they were created with"""
        p = ctx.p
        n = 0
        for t in p.types:
            if p.canon(t.id) != t.id or not t.name.startswith("xdispatch::") or not t.members:
                continue
            offs = [off for nm, off, tid in t.members if prio_type(p, tid)]
            for f in ctx.methods(t.name) if offs else ():
                if f.ctor and "~" not in f.base and prio_args(p, f):
                    i = arg_index(f, prio_args(p, f)[0])
                    n += 1

                    def setup(eng, st, f, a, i=i):
                        st.ghost["prio"] = a[i]
                        st.ghost["this"] = a[0]
                    ctx.job(f, lambda off=offs[0]: MemberMonitor(off), setup=setup, label="ctor " + f.dem,
                            models=lambda: Models(MANAGE))
        ctx.floor("constructors storing priorities", n, 2)
        ctx.run()
