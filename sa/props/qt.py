"""P32: operations for a Qt thread are delivered by its event loop."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import BASE_ASSUMPTIONS, THIS, same, deref
from props.mapping import FlowMonitor, MANAGE, QUEUE_IMPL, THREADPOOL, BACKEND
from props.pool import ExecutorMonitor, QT_MODELS, qt_const

POST = "QCoreApplication::postEvent"
MOVE = "QObject::moveToThread"
APPEXEC = "QCoreApplication::exec"
APPSELF = "QCoreApplication::self"
EVENTLOOP = ("QCoreApplication::sendEvent", "QCoreApplication::sendPostedEvents", "QCoreApplication::removePostedEvents",
             "QCoreApplication::processEvents", "QCoreApplication::notify")
NONE, USER = 0, 1000


def instance(eng, st):
    """the application object"""
    for name, g in eng.p.globals.items():
        if g.get("dem") == APPSELF:
            return eng.load(st, ("p", ("G#", name), 0), 8, "p")
    raise Broken("no application object")


def isnull(eng, st, v):
    if v == 0:
        return True
    return eng.nullness(st, v) is True if is_ptr(v) else False


class PostMonitor(ExecutorMonitor):
    """execute of a pool posting events: a foreign event arrives first, then the one posted"""

    def start(self, eng, st):
        super().start(eng, st)
        st.ghost["foreign"] = 0
        st.ghost["prio"] = None

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "EXT" and a[0] in EVENTLOOP:
            return eng.violate(st, "the event loop is bypassed by " + a[0])
        if kind == "CONT":
            g["foreign"] = max(g["foreign"] - 1, 0) if g["phase"] == "op" else g["foreign"]
            g["phase"] = "op"
            self.count("deliveries")
            return
        if g["phase"] == "op" and g["foreign"]:
            if kind in ("EXEC", "ICALL", "UCALL"):
                return eng.violate(st, "an event of somebody else executes an operation")
            if kind == "RETURN":
                self.count("foreign events")
            return
        super().event(eng, st, kind, *a)
        if st.dead or kind != "EXT" or a[0] != POST:
            return
        if len(a) > 3:
            if not isinstance(a[3], int):
                return eng.violate(st, "operations are posted with varying event priorities and may overtake each other")
            self.facts["event priority %d" % a[3]] = 1
        # whatever else may arrive
        t = eng.p.by_name.get("QEvent")
        off = [o for n, o, tid in t.members if n == "t"][0]
        conts = list(st.conts)
        fn = conts[0][1]
        kinds = [NONE, 1, 52, ("y#", ("foreign",), 0)]
        mine = eng.load(st, ("p", a[2][1], a[2][2] + off), 2, 0)
        eng.assume_cmp(st, "sge", kinds[3], USER)
        eng.assume_cmp(st, "sle", kinds[3], 65535)
        if isinstance(mine, int):
            if mine < USER:
                return eng.violate(st, "the events posted have a type used by Qt")
        else:       # has been registered
            eng.assume_cmp(st, "sge", mine, USER)
        eng.assume_cmp(st, "ne", kinds[3], mine)
        g["mine"] = mine
        g["kinds"] = kinds[3]
        pre = []
        for k, x in enumerate(kinds):
            o = ("S#", ("foreignevent", k), 0)
            st.mem[o] = {off: (x, 2)}
            st.typ[o] = ((0, t.id),)
            st.nn.add(o)
            g["foreign%d" % k] = ("p", o, 0)
            pre.append(("call", fn, (("p", THIS, 0), ("p", o, 0))))
        g["foreign"] = len(pre)
        st.conts = tuple(pre + conts)
        g["first"] = 1


class QtFlow(FlowMonitor):
    """creates a queue for a thread, submits an operation and delivers the event"""

    def start(self, eng, st):
        g = st.ghost
        g["keep_globals"] = 1
        g["phase"] = "create"
        g["moved"] = ()
        g["posted"] = 0
        g["ran"] = 0
        g["fallback"] = 0
        g["app"] = instance(eng, st)
        g["appthread"] = None

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "EXT" and a[0] == MOVE:
            g["moved"] = g["moved"] + ((a[1], a[2]),)
        elif kind == "EXT" and a[0] in EVENTLOOP:
            return eng.violate(st, "the event loop is bypassed by " + a[0])
        elif kind == "EXT" and a[0] == POST:
            g["posted"] += 1
            if g["posted"] > 1:
                return eng.violate(st, "an operation is posted twice")
            if g["phase"] != "use":
                return eng.violate(st, "something is posted while creating a queue")
            where = [t for o, t in g["moved"] if o == a[1]]
            if not where:
                return eng.violate(st, "the object handling the events of a queue has not been moved to a thread")
            if not self.wanted(eng, st, where[-1]):
                return eng.violate(st, "operations are delivered to another thread than the one given")
            fs = self.handlers(eng, st, a[1])
            if fs is None:
                return eng.violate(st, "events posted are not handled")
            st.conts = st.conts + (("call", fs[0], (fs[1], a[2])),)
            self.count("threads checked")
        elif kind == "CONT":
            g["phase"] = "deliver" if g["phase"] == "use" else "use"
        elif kind in ("EXEC",):
            if g["phase"] != "deliver":
                return eng.violate(st, "an operation is executed outside of the event loop of its thread")
            if same(eng, st, a[0], ("p", ("S#", ("userop",), 0), 0)):
                g["ran"] += 1
                if g["ran"] > 1:
                    return eng.violate(st, "an operation is executed twice by its thread")
        elif kind == "RETURN":
            if g["phase"] == "create":
                self.created(eng, st)
            elif g["phase"] == "use":
                nothread = isnull(eng, st, g["app"]) and self.main
                if g["posted"] and nothread:
                    return eng.violate(st, "an operation is posted although there is no application")
                if not g["posted"] and not nothread:
                    return eng.violate(st, "an operation submitted to a queue of a thread is not delivered to it")
                if nothread:
                    self.count("fallbacks")
            else:
                if g["ran"] != 1:
                    return eng.violate(st, "an operation is not executed by the event loop of its thread")
                self.count("operations delivered")

    main = False

    def wanted(self, eng, st, t):
        g = st.ghost
        if self.main:
            return t == g["appthread"] and g["appthread"] is not None
        return same(eng, st, t, g["thread"])

    def handlers(self, eng, st, obj):
        """what handles events sent to the object"""
        p = self.ctx.p
        q = p.by_name.get("QObject")
        for t in self.ctx.derived("QObject"):
            off = p.base_offset(t.id, q.id)
            if off is None:
                continue
            vt = p.vtable(t.id, off)
            e = st.mem.get(obj[1], {}).get(obj[2])
            if not vt or e is None or not is_ptr(e[0]) or e[0][1] != ("G#", vt[0]) or e[0][2] != vt[1]:
                continue
            fs = {f.base: f for f in self.ctx.methods(t.name) if f.base in ("event", "customEvent")}
            f = fs.get("event") or fs.get("customEvent")
            if f is not None:
                return f.name, ("p", obj[1], obj[2] - off)
        return None

    def created(self, eng, st):
        g = st.ghost
        t, ptr = self.impl(eng, st)
        if t is None:
            if self.main and isnull(eng, st, g["app"]) and not g["moved"]:
                return          # the native main queue exists already
            return eng.violate(st, "no queue is created")
        af = self.async_of(t)
        if af is None:
            raise Broken("how %s executes operations" % t.name)
        op = ("S#", ("userop",), 0)
        ref = ("A#", 0, "useropref")
        st.mem.setdefault(op, {})
        st.nn.add(op)
        st.typ[op] = ((0, eng.p.by_name["xdispatch::operation"].id),)
        st.mem[ref] = {0: (("p", op, 0), 8), 8: (("p", ("PI#", op), 0), 8)}
        g["ref"] = ("p", ref, 0)
        g["op"] = ("p", op, 0)
        self.count("queues created")
        st.conts = (("call", af.name, (ptr, ("p", ref, 0))),)


class QtMainFlow(QtFlow):
    main = True

    def event(self, eng, st, kind, *a):
        super().event(eng, st, kind, *a)


def thread_model(eng, st, c, a):
    """QObject::thread(): keeps the thread of the application in mind"""
    k = 1 if c.sret else 0
    v = eng.result(st, c, a)
    if same(eng, st, a[k], st.ghost.get("app", 0)) or (is_ptr(a[k]) and a[k] == st.ghost.get("app")):
        st.ghost["appthread"] = v
    return eng.ret(st, c, v)


class ExecMonitor(Monitor):
    """exec() of the backend"""

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        st.ghost["app"] = instance(eng, st)
        st.ghost["keep_globals"] = 1
        st.ghost["n"] = 0
        st.ghost["base"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "EXT" and a[0] in (APPEXEC, "QEventLoop::exec"):
            g["n"] += 1
        elif kind == "CALL" and a[0].endswith("::exec"):
            g["base"] += 1
        elif kind == "RETURN":
            self.count("event loops")
            if isnull(eng, st, g["app"]):
                if g["n"] or g["base"] != 1:
                    return eng.violate(st, "without an application exec() does not run the native main queue")
            elif g["base"] or g["n"] != 1:
                return eng.violate(st, "exec() does not run the event loop of the application")


class P32(Spec):
    id = "P32"
    technique = ("abstract interpretation of posting and handling events with typestate of each operation and tracking of "
                 "the thread affinity of the receiving object")
    explanation = (
        "Submission to an executor posting events is interpreted together with the handler of its events, which is given "
        "foreign events and the one posted. Queues created for a thread and the main queue are followed from their creation "
        "over the submission of an operation up to the event handled, with the thread each receiver was moved to.")
    rules = (
        "submitting an operation posts exactly one event to the executor itself, nothing is executed by the call",
        "events are posted with one constant priority and a registered type, so that Qt keeps their order",
        "handling the event executes the operation exactly once, other events execute nothing",
        "the receiver of the events has been moved to the thread given, of the application for the main queue, and nowhere "
        "else afterwards",
        "without an application the main queue and exec() are those of the native backend",
        "pending events are never removed or sent synchronously")
    assumptions = BASE_ASSUMPTIONS + [
        "Qt delivers events of equal priority posted to an object in order, exactly once, within the event loop of the thread "
        "the object has been moved to",
        "serial queues built upon an executor keep the order and execute once (P01, P02)"]

    def check(self, ctx):
        p = ctx.p
        n = 0
        qo = p.by_name.get("QObject")
        execs = []
        seen = set()
        for t, f in ctx.overrides(THREADPOOL, "execute"):
            if "xdrv" in f.dem or f.name in seen:
                continue
            seen.add(f.name)
            if qo is None or p.base_offset(t.id, qo.id) is None:
                continue
            n += 1
            execs.append(f)

            def setup(eng, st, f, a):
                op = deref(eng, st, a[1])
                eng.assume_cmp(st, "ne", op, 0)
                st.ghost["op"] = op
            ctx.job(f, lambda t=t, f=f: PostMonitor(ctx, t, f), setup=setup, label=f.dem,
                    models=lambda: Models(QT_MODELS), const_extra=qt_const(ctx))
        ctx.floor("executors living on a thread", n, 1)
        # queues for a thread
        n = 0
        models = dict(MANAGE, **QT_MODELS)
        models["QObject::thread"] = thread_model
        for f in sorted(p.funcs.values(), key=lambda f: f.dem):
            if not f.blocks or not f.dem.startswith("xdispatch::qt5::") or "QThread*" not in f.dem:
                continue
            c = p.canon(f.di[0]) if f.di and f.di[0] >= 0 else -1
            if c < 0 or p.types[c].name not in ("xdispatch::queue", "std::shared_ptr<xdispatch::iqueue_impl>"):
                continue
            i = [k for k, d in enumerate(f.di[1:]) if self.is_thread(p, d)]
            if len(i) != 1:
                continue
            i = i[0] + (1 if f.argattrs and f.argattrs[0] == "sret" else 0)
            n += 1

            def setup(eng, st, f, a, i=i):
                st.ghost["thread"] = a[i]
                st.ghost["created"] = a[0]
                eng.assume_cmp(st, "ne", a[i], 0)
            ctx.job(f, lambda f=f: QtFlow(ctx, f, 0), setup=setup, label="flow " + f.dem,
                    models=lambda: Models(models), const_extra=qt_const(ctx), sequential=True,
                    recursion=3)
        ctx.floor("functions creating queues for a thread", n, 1)
        m = e = 0
        for t, f in ctx.overrides(BACKEND, "create_main_queue"):
            if "::qt5::" not in f.dem:
                continue
            m += 1

            def setup(eng, st, f, a):
                st.ghost["created"] = a[0]
            ctx.job(f, lambda f=f: QtMainFlow(ctx, f, 0), setup=setup, label="flow " + f.dem,
                    models=lambda: Models(models), const_extra=qt_const(ctx), sequential=True,
                    recursion=3)
        others = {f.key: None for t, f in ctx.overrides(BACKEND, "exec") if "::qt5::" not in f.dem and "xdrv" not in f.dem}
        for t, f in ctx.overrides(BACKEND, "exec"):
            if "::qt5::" not in f.dem:
                continue
            e += 1
            ctx.job(f, ExecMonitor, label=f.dem, opaque=others, sequential=True)
        ctx.floor("main queues", m, 1)
        ctx.floor("event loops", e, 1)
        ctx.run()
        names = {k for r in ctx.results for k in r["facts"] if k.startswith("event priority ")}
        if len(names) > 1:
            ctx.violate("events are posted with different priorities", "%s:%d" % (execs[0].file, execs[0].line)
                        if execs else "?", "")
        for what in ("deliveries", "foreign events", "queues created", "operations delivered", "threads checked",
                     "fallbacks"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)

    @staticmethod
    def is_thread(p, d):
        c = p.canon(d) if d is not None and d >= 0 else -1
        if c < 0 or p.types[c].tag != TAG_PTR:
            return False
        b = p.canon(p.types[c].base)
        return b >= 0 and p.types[b].name == "QThread"
