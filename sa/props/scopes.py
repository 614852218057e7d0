"""P25: announcing blocked threads to their pool and the pool a thread works
for are restored on all paths."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import BASE_ASSUMPTIONS, QUEUE_IMPL, THIS, THREADPOOL, deref, same
from props.entries import entries, is_closure, repo_file
from props.pool import QT_MODELS, SEM_MODELS, ExecutorMonitor, pool_jobs, qt_const, thread_function

GROUP_IMPL = "xdispatch::igroup_impl"
BLOCKED = "notify_thread_blocked"
UNBLOCKED = "notify_thread_unblocked"
# how Qt counts threads: one which blocks gives up its slot
QT_RELEASE = "QThreadPool::releaseThread"
QT_RESERVE = "QThreadPool::reserveThread"
SYSTEM_WAITS = ("select", "poll", "epoll_wait", "ppoll", "pselect", "nanosleep", "usleep", "sleep")


def current_pool(p):
    """thread-local variables naming the pool of a thread"""
    out = []
    for k, v in p.globals.items():
        if v.get("tls") and pool_pointer(p, v.get("di", -1)):
            out.append(k)
    return out


def pool_pointer(p, tid):
    c = p.canon(tid) if tid is not None and tid >= 0 else -1
    if c < 0 or p.types[c].tag != TAG_PTR:
        return False
    b = p.canon(p.types[c].base)
    return b >= 0 and p.types[b].name == THREADPOOL


def may_throw(meth):
    """what is implemented by others may fail"""
    def model(eng, st, c, a):
        k = 1 if c.sret else 0
        eng.emit(st, "VCALL", "?", meth, *a[k:])
        if st.dead:
            return False
        for x in a:
            eng.escape(st, x)
            if is_ptr(x):
                eng.escape(st, deref(eng, st, x))
        s2 = st.copy()
        eng.havoc(s2, "virtual call")
        if eng.throw(s2, (("userexc",), ("y#", ("usersel",), 0))):
            eng.push(s2)
        eng.havoc(st, "virtual call")
        return eng.ret(st, c, eng.result(st, c, a))
    return model


THROWING = {
    QUEUE_IMPL + "::async": may_throw("async"),
    QUEUE_IMPL + "::apply": may_throw("apply"),
    QUEUE_IMPL + "::after": may_throw("after"),
    THREADPOOL + "::execute": may_throw("execute"),
}


def library(f):
    """part of a backend, waitable queues wait for each other like for a lock"""
    return "/naive/" in f.file or "/qt5/" in f.file


class Tls(Monitor):
    data = None

    def __init__(self, glob):
        self.glob = glob

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def pool(self, eng, st):
        """the pool this thread is known to work for"""
        return eng.load(st, ("p", ("G#", self.glob), 0), 8, "p")

    def start(self, eng, st):
        st.ghost["keep_globals"] = 1
        st.ghost["pool"] = self.pool(eng, st)
        st.ghost["blocked"] = ()


class ScopeMonitor(Tls):
    """any function of the library"""
    exec_throws = True

    def __init__(self, glob, waiting, f):
        super().__init__(glob)
        self.waiting = waiting
        self.f = f

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
            return
        if kind == "VCALL" and a[1] == BLOCKED:
            if len(g["blocked"]) > 3:
                return eng.violate(st, "a thread is announced as blocked over and over without being announced as "
                                       "unblocked")
            g["blocked"] += (a[2],)
            self.count("threads announced as blocked")
        elif kind == "VCALL" and a[1] == UNBLOCKED:
            if not g["blocked"]:
                return eng.violate(st, "a thread is announced as unblocked which was not announced as blocked")
            if not same(eng, st, g["blocked"][-1], a[2]):
                return eng.violate(st, "a thread is announced as unblocked to another pool than as blocked")
            g["blocked"] = g["blocked"][:-1]
            self.count("threads announced as unblocked")
        elif kind in ("CVWAIT", "SLEEP") or kind == "SELECT" or kind == "EXT" and a[0] in SYSTEM_WAITS:
            if not self.waiting:
                return
            self.count("blocking calls")
            v = self.pool(eng, st)
            if eng.cmp_truth(st, "eq", v, 0) is True:
                return
            if not any(same(eng, st, b, v) for b in g["blocked"]):
                return eng.violate(st, "a thread blocks without having announced this to the pool it works for")
        elif kind in ("RETURN", "UNWIND"):
            if g["blocked"]:
                return eng.violate(st, "a thread stays announced as blocked when %s" % (
                    "the function is left by an exception" if kind == "UNWIND" else "the function is left"))
            if not same(eng, st, self.pool(eng, st), g["pool"]):
                return eng.violate(st, "the pool a thread works for is not restored when %s" % (
                    "the function is left by an exception" if kind == "UNWIND" else "the function is left"))
            self.count("exits by exception" if kind == "UNWIND" else "exits")


class AnnounceMonitor(Tls):
    """notify_thread_blocked or notify_thread_unblocked of a pool"""

    def start(self, eng, st):
        st.ghost["n"] = 0
        st.ghost["does"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind in ("RMW", "CAS", "ASTORE", "EXT", "THREAD"):
            g["does"] = 1
        if kind == "EXT" and a[0] in (QT_RELEASE, QT_RESERVE):
            g["n"] += 1 if a[0] == QT_RELEASE else -1
            if abs(g["n"]) > 1:
                return eng.violate(st, "a blocking thread changes the number of threads by more than itself")
        elif kind == "RETURN":
            self.data = self.data or set()
            self.data.add((g["n"], g["does"]))


class PoolScopeMonitor(Tls):
    """a thread of a pool executing operations"""

    def event(self, eng, st, kind, *a):
        if kind != "EXEC":
            return
        v = self.pool(eng, st)
        if eng.cmp_truth(st, "ne", v, 0) is False:
            return eng.violate(st, "an operation is executed by a thread of a pool not known to work for it")
        if not is_ptr(v) or v[1][0] == "S#" and v[1][1][0] == "ld" and v[1][1][1][0] == "G#":
            return eng.violate(st, "an operation is executed by a thread of a pool not known to work for it")
        if not self.of_pool(eng, st, v):
            return eng.violate(st, "an operation is executed by a thread of a pool which is said to work for something "
                                   "else")
        self.count("operations executed by threads of a pool")

    def of_pool(self, eng, st, v):
        return self.member(eng, v)

    def member(self, eng, v):
        """loaded from a constant member which names a pool"""
        ident = v[1][1]
        if ident[0] != "ld":
            return v[1] == THIS
        self.data = self.data or set()
        self.data.add(ident[1:])
        return True


class QtScopeMonitor(ExecutorMonitor):
    """submitting to a pool of Qt and being executed by one of its threads"""

    def __init__(self, ctx, t, f, glob):
        super().__init__(ctx, t, f)
        self.tls = Tls(glob)

    def event(self, eng, st, kind, *a):
        if kind == "EXEC" and st.ghost["phase"] == "op":
            v = self.tls.pool(eng, st)
            if not (is_ptr(v) and v[1] == THIS):
                return eng.violate(st, "an operation is executed by a thread of a pool not known to work for it")
            self.count("operations executed by threads of a pool")
        super().event(eng, st, kind, *a)


class PoolCtorMonitor(Monitor):
    data = None

    """where the pool is remembered by what it shares with its threads"""

    def event(self, eng, st, kind, *a):
        if kind != "RETURN":
            return
        self.data = self.data or []
        mine = set()
        for o, m in st.mem.items():
            if o == THIS:
                continue
            for off, e in m.items():
                if type(off) is int and is_ptr(e[0]) and e[0][1] == THIS:
                    mine.add((o, off))
        holders = {}
        for off, e in st.mem.get(THIS, {}).items():
            if type(off) is int and is_ptr(e[0]):
                holders[off] = (e[0][1], e[0][2])
        self.data.append(tuple(sorted((hoff, off - ho[1]) for hoff, ho in holders.items() for o, off in mine
                                      if o == ho[0])))


class P25(Spec):
    id = "P25"
    requires = ("P17",)
    technique = "abstract interpretation with a typestate automaton for scopes, including exception paths"
    explanation = (
        "Abstract interpretation of every function of the library, including the paths taken when user code or queues "
        "throw, with a typestate counting how a thread is announced as blocked and with the thread-local variable "
        "naming its pool.")
    rules = (
        "on every path, also those left by an exception, each announcement of a blocked thread is followed by one of an "
        "unblocked thread to the same pool, none of these comes without the other",
        "waiting for a group, apply and operations of the library waiting, sleeping or selecting only do so announced to "
        "the pool of the thread (if any)",
        "the pool of a thread is the one executing it while an operation of a pool with threads of its own is executed "
        "and is what it was before on every path leaving a function",
        "a pool of Qt gets the slot of a blocked thread by releaseThread and takes it back by reserveThread; for naive "
        "pools see P17",
        "a naive pool told that one of its threads blocks starts another one unless it has seen an idle one or the limit "
        "(raised by the announcement) reached",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "locks, memory allocation and logging do not throw; operations, handlers and queues may",
        "QThreadPool counts threads as documented",
    ]

    def check(self, ctx):
        p = ctx.p
        if pool_jobs(ctx, True, "blocked") is None:
            return
        globs = current_pool(p)
        if len(globs) != 1:
            raise Broken("the variable naming the pool of a thread has not been recognised")
        glob = globs[0]
        waits = {f.name for base, meth in ((GROUP_IMPL, "wait"), (QUEUE_IMPL, "apply"))
                 for t, f in ctx.overrides(base, meth) if library(f)}
        # operations of the library itself
        ops = {f.name for t, f in ctx.overrides("xdispatch::operation", "operator()")
               if any(x in t.name + f.file for x in ("naive", "qt5")) and "xdrv" not in t.name}
        n = 0
        for f in entries(ctx):
            if "xdrv" in f.dem:
                continue
            n += 1
            waiting = f.name in waits or f.name in ops
            if waiting:
                ctx.counts["functions which may block a thread of a pool"] = \
                    ctx.counts.get("functions which may block a thread of a pool", 0) + 1
            ctx.job(f, lambda f=f, w=waiting: ScopeMonitor(glob, w, f), label=f.dem + " " + f.name,
                    models=lambda: Models(THROWING))
        ctx.floor("functions", n, 60)
        ctx.run()
        for what in ("threads announced as blocked", "threads announced as unblocked", "exits", "exits by exception",
                     "blocking calls"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)
        self.threads(ctx, glob, self.announce(ctx, glob))

    def announce(self, ctx, glob):
        fs = [(t, f) for m in (BLOCKED, UNBLOCKED) for t, f in ctx.overrides(THREADPOOL, m) if "xdrv" not in f.dem]
        for t, f in fs:
            ctx.job(f, lambda: AnnounceMonitor(glob), label="announce " + f.dem)
        res = {r["label"]: r["data"] for r in ctx.run()}
        active = set()
        for t, f in fs:
            d = res.get("announce " + f.dem) or set()
            if any(x[1] for x in d):
                active.add(t.name)
            d = {x[0] for x in d}
            if f.base == UNBLOCKED:
                d = {-x for x in d}
            starts = self.qt_pool(ctx, t)
            want = {1} if starts else {0}
            if d != want and d:
                ctx.violate("announcing a blocking thread changes the slots of the pool by %s" % sorted(d),
                            "%s:%d" % (f.file, f.line), f.dem)
        ctx.floor("functions announcing", len(fs), 4)
        return active

    @staticmethod
    def qt_pool(ctx, t):
        """has a pool of Qt as member"""
        return any("QThreadPool" in ctx.p.types[ctx.p.canon(tid)].name for n, o, tid in t.members)

    def threads(self, ctx, glob, active):
        p = ctx.p
        from props.pool import RoleMonitor
        thr = {}
        others = {t.name for t, f in ctx.overrides(THREADPOOL, "execute")}
        fs = [(t, f) for t, f in ctx.overrides(THREADPOOL, "execute")
              if "xdrv" not in f.dem and t.name in active]
        n0, v0 = len(ctx.results), list(ctx.violations)
        for t, f in fs:
            ctx.job(f, RoleMonitor, label="E " + t.name, models=lambda: Models(SEM_MODELS))
        for r in ctx.run():
            thr[r["label"][2:]] = {x for x in r["data"]["thread"] if x in p.funcs}
        ctx.results = ctx.results[:n0]
        ctx.violations = v0
        n = 0
        for t, f in fs:
            for name in sorted(thr.get(t.name, ())):
                g = p.funcs[name]
                if g.cls >= 0 and p.types[p.canon(g.cls)].name in others - {t.name}:
                    # started by something else used by the pool
                    continue
                n += 1
                ctx.job(g, lambda: PoolScopeMonitor(glob), label="thread " + g.dem, models=lambda: Models(SEM_MODELS))
            if thr.get(t.name):
                for c in ctx.methods(t.name):
                    if c.ctor and not c.base.startswith("~"):
                        ctx.job(c, PoolCtorMonitor, label="ctor " + c.dem)
            elif self.qt_pool(ctx, t):
                n += 1

                def setup(eng, st, f, a):
                    op = deref(eng, st, a[1])
                    eng.assume_cmp(st, "ne", op, 0)
                    st.ghost["op"] = op
                ctx.job(f, lambda t=t, f=f: QtScopeMonitor(ctx, t, f, glob), setup=setup, label="qt " + f.dem,
                        models=lambda: Models(QT_MODELS), const_extra=qt_const(ctx))
        ctx.floor("pools with threads of their own", n, 1)
        res = ctx.run()
        if not ctx.fact("operations executed by threads of a pool") and not ctx.violations:
            raise Broken("no operation executed by a pool observed")
        made = [path for r in res if r["label"].startswith("ctor ") for path in r["data"] or ()]
        for r in res:
            for ld in sorted(r["data"] or ()) if r["label"].startswith("thread ") else ():
                if not made or any(ld[1] not in [off for hoff, off in path] for path in made):
                    ctx.violate("what a thread takes for its pool has not been set to the pool when this was created",
                                "?", r["label"])
        ctx.counts["constructors of pools"] = len(made)
