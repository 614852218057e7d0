"""P19: backends are not mixed; P20: labels and identity of queues."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import (BASE_ASSUMPTIONS, OPQ, QUEUE_IMPL, THIS, THREADPOOL, assume_queues, deref, member_offsets,
                          same)
from props.entries import entries, repo_file
from props.mapping import MANAGE
from props.pool import QT_MODELS, qt_const
from props.queues import opqueue_model

BACKEND = "xdispatch::ibackend"
BACKENDS = "xdispatch::backend_type"
KINDS = (QUEUE_IMPL, "xdispatch::igroup_impl", "xdispatch::itimer_impl", "xdispatch::isocket_notifier_impl")
MADE = {"create_timer": KINDS[2], "create_socket_notifier": KINDS[3], "create_group": KINDS[1],
        "create_main_queue": QUEUE_IMPL, "create_serial_queue": QUEUE_IMPL, "create_parallel_queue": QUEUE_IMPL}
BY_TYPE = "xdispatch::backend_for_type"
QUEUE = "xdispatch::queue"
HANDLES = ("xdispatch::timer", "xdispatch::socket_notifier")


def enum_values(p, name):
    t = p.by_name.get(name)
    if t is None or not t.enumerators:
        raise Broken("the values of " + name)
    return {n: v for n, v in t.enumerators}


def backend_of(eng, st, obj):
    """the backend an unknown object belongs to, it never changes"""
    if obj[0] == "S#" and obj[1][0] == "made":
        return obj[1][1]
    pre = st.ghost.get("backends", ())
    for o, v in pre:
        if o == obj:
            return v
    s = ("y#", ("backend", obj), 0)
    if s not in st.iv:
        st.iv[s] = (0, 255)
    st.ghost["backends"] = pre[-5:] + ((obj, s),)
    return s


def backend_model(eng, st, c, a):
    v = backend_of(eng, st, a[0][1]) if is_ptr(a[0]) else 0
    eng.emit(st, "BACKEND", a[0], v)
    return eng.ret(st, c, v) if not st.dead else False


def by_type_model(eng, st, c, key, a):
    o = ("S#", ("backendfor", a[0]), 0)
    st.mem.setdefault(o, {})
    st.nn.add(o)
    st.typ[o] = ((0, eng.p.by_name[BACKEND].id),)
    return eng.ret(st, c, ("p", o, 0))


def creation_model(meth):
    def model(eng, st, c, a):
        q = None
        if meth in ("create_timer", "create_socket_notifier"):
            q = eng.load(st, a[2], 8, "p")
        t = a[1][1][1][1] if is_ptr(a[1]) and a[1][1][0] == "S#" and a[1][1][1][0] == "backendfor" else None

        def made(eng, st, c, v):
            eng.emit(st, "CREATE", meth, t, q, v)
            if st.dead:
                return False
            n = st.ghost.get("ncreated", 0)
            if n < 4:
                st.ghost["ncreated"] = n + 1
            o = ("S#", ("made", v if v is not None else t, n), 0)
            st.mem.setdefault(o, {})
            st.nn.add(o)
            st.typ[o] = ((0, eng.p.by_name[MADE[meth]].id),)
            eng.store(st, a[0], ("p", o, 0), 8)
            eng.store(st, ("p", a[0][1], a[0][2] + 8), ("p", ("PI#", o), 0), 8)
            return eng.ret(st, c, None)
        if q is None:
            return made(eng, st, c, None)
        f = dynamic(eng, st, q)
        if f is None:
            return made(eng, st, c, backend_of(eng, st, q[1]) if is_ptr(q) else None)

        def done(eng, st, c, tag):
            return made(eng, st, c, eng.nested_value)
        eng.push_frame(st, f, [q], c, tag=("then", "nested", done, c.dst))
        return True
    return model


def dynamic(eng, st, q):
    """backend() of a queue whose class is known"""
    if not is_ptr(q):
        return None
    f = virtual_fn(eng, st, q, QUEUE_IMPL, "backend")
    if f is None and q[1] == THIS:
        return eng.mon.own
    return f


def virtual_fn(eng, st, q, iface, meth):
    e = st.mem.get(q[1], {}).get(q[2])
    if e is None or not is_ptr(e[0]) or e[0][1][0] != "G#":
        return None
    g = eng.p.globals.get(e[0][1][1])
    t = eng.p.by_name.get(iface)
    for v in t.virtuals if t is not None and g is not None else ():
        if v[1] == meth:
            w = g["initmap"].get(e[0][2] + 8 * v[0])
            if w is not None and w[0] == "f":
                return eng.p.funcs.get(w[1])
    return None


def kind_models():
    m = {k + "::backend": backend_model for k in KINDS}
    for x in ("create_main_queue", "create_serial_queue", "create_parallel_queue", "create_group", "create_timer",
              "create_socket_notifier"):
        m[BACKEND + "::" + x] = creation_model(x)
    return m


class UseMonitor(Monitor):
    """objects are created by the backend of their queue and only combined
    with objects of the same one"""

    def __init__(self, own, naive, checked):
        self.own = own          # backend() of the class analysed
        self.naive = naive
        self.checked = checked  # constructor combining a queue and another object

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        st.ghost["asked"] = ()

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "CREATE":
            meth, t, q, v = a
            if q is None:
                return
            if t is None:
                return eng.violate(st, "it is unknown which backend creates the object")
            if not same(eng, st, t, v) and eng.cmp_truth(st, "eq", t, v) is not True:
                return eng.violate(st, "an object for a queue is created by another backend than the one of the queue")
            self.count("objects created by the backend of their queue")
        elif kind == "BACKEND":
            if (a[0], a[1]) not in g["asked"] and len(g["asked"]) < 4:
                g["asked"] += ((a[0], a[1]),)
        elif kind == "VCALL" and a[0] == "xdispatch::igroup_impl" and a[1] in ("async", "notify"):
            q = eng.load(st, a[4], 8, "p")
            gb = backend_of(eng, st, a[2][1])
            qb = backend_of(eng, st, q[1]) if is_ptr(q) else None
            if eng.cmp_truth(st, "eq", gb, self.naive) is not True and eng.cmp_truth(st, "eq", gb, qb) is not True:
                return eng.violate(st, "a group passes an operation to a queue of another backend")
            self.count("combinations of groups and queues")
        elif kind in ("TERMINATE", "UNWIND"):
            l = g["asked"]
            if len(l) >= 2:
                v = {x for _, x in l}
                bs = sorted(v, key=repr)
                if len(v) == 1 or len(bs) == 2 and eng.cmp_truth(st, "eq", bs[0], bs[1]) is True:
                    return eng.violate(st, "objects of the same backend are refused")
                self.count("refusals of another backend")
        elif kind == "RETURN" and self.checked is not None:
            self.combined(eng, st)

    def combined(self, eng, st):
        l = [x for x in self.checked]
        objs = []
        for path in l:
            p = ("p", THIS, path)
            v = eng.load(st, p, 8, "p")
            objs.append(v)
        if not all(is_ptr(x) for x in objs):
            return eng.violate(st, "the object or its queue is missing")
        b = [backend_of(eng, st, x[1]) for x in objs]
        if b[0] != b[1] and eng.cmp_truth(st, "eq", b[0], b[1]) is not True:
            return eng.violate(st, "an object is combined with a queue of another backend")
        self.count("combinations of objects and queues")


class MadeMonitor(Monitor):
    """which backend objects created belong to"""

    def __init__(self, iface, expect):
        self.iface = iface
        self.expect = expect
        self.data = {}

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        st.ghost["phase"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "RETURN" and g["phase"] == 0:
            q = eng.load(st, ("p", g["out"][1], g["out"][2]), 8, "p")
            g["phase"] = 1
            if not is_ptr(q):
                return eng.violate(st, "nothing is created")
            f = virtual_fn(eng, st, q, self.iface, "backend")
            if f is None:
                return self.judge(eng, st, backend_of(eng, st, q[1]))
            st.conts = (("call", f.name, (q,)),)
        elif kind == "RETURN":
            self.judge(eng, st, a[0])

    def judge(self, eng, st, v):
        if isinstance(self.expect, frozenset):
            if not isinstance(v, int) or v not in self.expect:
                return eng.violate(st, "an object is created which does not belong to the backend creating it")
        else:
            w = st.ghost["want"] if self.expect is None else self.expect
            if v != w and eng.cmp_truth(st, "eq", v, w) is not True:
                return eng.violate(st, "an object is created which belongs to another backend than requested")
        self.count("objects created for their backend")


class SerialMonitor(Monitor):
    """which class of queues is created"""

    def __init__(self, allowed):
        self.allowed = allowed

    def event(self, eng, st, kind, *a):
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "RETURN":
            out = st.ghost["out"]
            q = eng.load(st, ("p", out[1], out[2]), 8, "p")
            f = virtual_fn(eng, st, q, QUEUE_IMPL, "async") if is_ptr(q) else None
            if f is None:
                # made earlier, by one of the functions analysed
                self.facts["queues reused"] = self.facts.get("queues reused", 0) + 1
                return
            if f.name not in self.allowed:
                return eng.violate(st, "a queue is created for serial execution which executes in parallel")
            self.facts["serial queues created"] = self.facts.get("serial queues created", 0) + 1


class BypassMonitor(Monitor):
    """operations submitted to a queue are ordered by its operation queue"""

    def event(self, eng, st, kind, *a):
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "VCALL" and a[0] == THREADPOOL and a[1] == "execute":
            return eng.violate(st, "an operation submitted to a serial queue is executed without regarding its order")
        elif kind == "EXEC":
            return eng.violate(st, "operation of a serial queue executed on the submitting thread")
        elif kind == "SUBMIT":
            self.facts["operations put in order"] = self.facts.get("operations put in order", 0) + 1


def serial_queues(ctx):
    """what is created as serial queue puts all operations into an operation
    queue (P01)"""
    p = ctx.p
    impls, others = {}, {}
    for t, f in ctx.overrides(QUEUE_IMPL, "async"):
        if "xdrv" not in f.dem:
            own = member_offsets(p, f.cls, lambda n: n.startswith("std::shared_ptr<") and OPQ in n)
            (impls if own else others)[f.name] = f
    if not impls:
        raise Broken("no queue using an operation queue")
    for f in impls.values():
        def setup(eng, st, f, a):
            op = deref(eng, st, a[1])
            eng.assume_cmp(st, "ne", op, 0)
            assume_queues(eng, st, p, f.cls, ("p", THIS, 0))
        ctx.job(f, BypassMonitor, label="order " + f.dem, setup=setup,
                models=lambda: Models({OPQ + "::async": opqueue_model}))
    models = dict(QT_MODELS, **kind_models())
    for k in list(models):
        if k.startswith(BACKEND):
            del models[k]
    models.update(MANAGE)
    n = 0
    for f in sorted(p.funcs.values(), key=lambda f: (f.dem, f.name)):
        if not (repo_file(f) and f.blocks and f.di and "/frontend/" not in f.file and "xdrv" not in f.dem and
                p.canon(f.di[0]) >= 0 and f.base in ("create_serial_queue", "create_main_queue")):
            continue
        r = p.types[p.canon(f.di[0])].name
        if not (r == QUEUE or QUEUE_IMPL in r):
            continue
        n += 1

        def made(eng, st, f, a):
            st.ghost["out"] = a[0]
            first_use(eng, st)
            for x in a:
                if is_ptr(x) and x[1][0] == "S#" and x[1][1][0] == "arg":
                    nonnull_sp(eng, st, f, a, x)
        ctx.job(f, lambda: SerialMonitor(set(impls)), setup=made, label="serial " + f.dem, models=lambda: Models(models),
                const_extra=qt_const(ctx), sequential=True)
    ctx.floor("functions creating serial queues", n, 2)
    ctx.run()
    for what in ("serial queues created", "operations put in order"):
        if not ctx.fact(what) and not ctx.violations:
            raise Broken("no %s observed" % what)


class P19(Spec):
    id = "P19"
    technique = "abstract interpretation with dataflow of the backend of each object (typestate on creation)"
    explanation = (
        "The backend of each object is an attribute which never changes. Every function of the library is interpreted "
        "abstractly to obtain which backend creates objects and with which queues these are combined. Every creation "
        "function is interpreted per backend, followed by the question which backend the result belongs to.")
    rules = (
        "create_timer and create_socket_notifier are called on the backend of the queue passed to them",
        "creation functions return objects of the backend requested, for timers and notifiers of the one of the queue",
        "a group not being naive only passes operations on to queues of its own backend",
        "timers and notifiers are only combined with queues of their own backend, objects of the same backend are "
        "never refused",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "the backend() of an object does not change, loading backends by name is as documented"]

    def check(self, ctx):
        p = ctx.p
        values = enum_values(p, BACKENDS)
        self.values = values
        naive = values["naive"]
        self.uses(ctx, naive)
        self.creation(ctx, values)
        self.forwarding(ctx)

    # ------------------------------------------------------------------
    def uses(self, ctx, naive):
        p = ctx.p
        fs = {f.name: f for f in entries(ctx)}
        for f in p.funcs.values():
            if f.ctor and "~" not in f.base and repo_file(f) and "/frontend/" not in f.file and f.blocks:
                fs[f.name] = f
        for f in ctx.methods("xdispatch::group"):
            if f.base in ("async", "notify"):
                fs[f.name] = f
        own = {t.name: f for t, f in ctx.overrides(QUEUE_IMPL, "backend")}
        n = 0
        for f in sorted(fs.values(), key=lambda f: (f.dem, f.name)):
            if "xdrv" in f.dem or f.key == BY_TYPE:
                continue
            cname = p.types[p.canon(f.cls)].name if f.cls >= 0 else ""
            if cname.endswith("::backend"):
                continue
            checked = None
            if f.ctor and cname in HANDLES and self.takes_queue(p, f):
                checked = self.handle_members(ctx, cname)
                n += 1

            def setup(eng, st, f, a, checked=checked):
                if checked:
                    st.ghost["this"] = a[0]
                for x in a:
                    if is_ptr(x) and x[1][0] == "S#" and x[1][1][0] == "arg":
                        nonnull_sp(eng, st, f, a, x)
            ctx.job(f, lambda own=own.get(cname), checked=checked: UseMonitor(own, naive, checked), setup=setup,
                    label="use %s %s" % (f.dem, f.name), models=lambda: Models(kind_models()),
                    opaque=dict({BY_TYPE: by_type_model, "xdispatch::group::async": None,
                                 "xdispatch::group::notify": None}),
                    const_extra=handle_const(ctx))
        ctx.floor("constructors combining objects and queues", n, 4)
        ctx.run()
        for what, least in (("objects created by the backend of their queue", 5),
                            ("combinations of groups and queues", 2), ("combinations of objects and queues", 2),
                            ("refusals of another backend", 2)):
            if ctx.fact(what) < least and not ctx.violations:
                raise Broken("%s: %d" % (what, ctx.fact(what)))

    @staticmethod
    def takes_queue(p, f):
        for d in f.di[2:]:
            c = p.canon(d)
            if c >= 0 and p.types[c].tag in (TAG_REF, TAG_RREF):
                b = p.canon(p.types[c].base)
                if b >= 0 and p.types[b].name == QUEUE:
                    return True
        return False

    @staticmethod
    def handle_members(ctx, cname):
        """offsets of the implementation and of the one of the target queue"""
        p = ctx.p
        t = ctx.cls(cname)
        impl, q = [], []
        for nm, off, tid in t.members:
            n = p.types[p.canon(tid)].name
            if n == QUEUE:
                q.append(off + queue_members(ctx)[0])
            elif n.startswith(("std::shared_ptr<xdispatch::i", "shared_ptr<xdispatch::i")):
                impl.append(off)
        if len(impl) != 1 or len(q) != 1:
            raise Broken("members of " + cname)
        return (impl[0], q[0])

    # ------------------------------------------------------------------
    def creation(self, ctx, values):
        p = ctx.p
        n = 0
        own = {}
        for t in ctx.derived(BACKEND):
            for f in ctx.methods(t.name):
                if f.base == "type":
                    own[t.name] = f
        types = {}
        for name, f in sorted(own.items()):
            ctx.job(f, ValueMonitor, label="type " + name)
        n0 = len(ctx.results)
        for r in ctx.run():
            v = r["data"].get("values", ())
            if len(v) != 1 or not isinstance(list(v)[0], int):
                raise Broken("type of backend " + r["label"])
            types[r["label"][5:]] = list(v)[0]
        jobs = []
        for t in ctx.derived(BACKEND):
            if t.name not in types:
                raise Broken("type of " + t.name)
            for f in self.virtuals(ctx, t):
                jobs.append((t.name, types[t.name], f))
            for f in ctx.methods(t.name):
                if f.base.startswith("create_") and self.arg(p, f, BACKENDS) is not None:
                    jobs.append((t.name, None, f))
        for f in sorted(p.funcs.values(), key=lambda f: (f.dem, f.name)):
            if repo_file(f) and f.blocks and f.cls < 0 and f.di and "/frontend/" not in f.file and "xdrv" not in f.dem and \
                    p.canon(f.di[0]) >= 0 and p.types[p.canon(f.di[0])].name == QUEUE and f.ctx.count("::") and \
                    f.base.startswith("create_"):
                if self.arg(p, f, BACKENDS) is not None:
                    jobs.append(("", None, f))
                else:
                    bs = [v for nm, v in types.items() if nm.rsplit("::", 1)[0] == f.ctx.rstrip(":")]
                    if len(bs) == 1:
                        jobs.append((f.ctx, bs[0], f))
        models = dict(QT_MODELS, **kind_models())
        for k in list(models):
            if k.startswith(BACKEND):
                del models[k]
        models.update(MANAGE)
        for cname, own_type, f in jobs:
            r = p.types[p.canon(f.di[0])].name
            iface = [k for k in KINDS if k in r] or ([QUEUE_IMPL] if r == QUEUE else [])
            if not iface:
                continue
            q = self.queue_arg(p, f)
            cases = [None]
            if own_type is None:
                cases = ["arg"]
            elif q is not None:
                cases = sorted({own_type, values["naive"]})
            for case in cases:
                n += 1
                if case == "arg":
                    expect = None
                elif q is not None:
                    expect = case
                else:
                    expect = frozenset({own_type} if cname.count("::") < 2 else {own_type, values["naive"]}) \
                        if f.cls >= 0 else frozenset({own_type})

                def setup(eng, st, f, a, case=case, q=q, cname=cname):
                    st.ghost["out"] = a[0]
                    first_use(eng, st)
                    if case == "arg":
                        st.ghost["want"] = a[arg_pos(f, self.arg(eng.p, f, BACKENDS))]
                    if q is not None:
                        x = eng.load(st, a[arg_pos(f, q)], 8, "p")
                        eng.assume_cmp(st, "ne", x, 0)
                        if case != "arg":
                            st.ghost["backends"] = ((x[1], case),)
                    for x in a:
                        if is_ptr(x) and x[1][0] == "S#" and x[1][1][0] == "arg":
                            nonnull_sp(eng, st, f, a, x)
                ctx.job(f, lambda i=iface[0], e=expect: MadeMonitor(i, e), setup=setup,
                        label="made %s %s %s" % (cname, case, f.dem), models=lambda: Models(models),
                        const_extra=qt_const(ctx), sequential=True)
        ctx.floor("creation functions", n, 8)
        ctx.run()
        if ctx.fact("objects created for their backend") < n and not ctx.violations:
            raise Broken("objects created: %d of %d" % (ctx.fact("objects created for their backend"), n))

    def virtuals(self, ctx, t):
        """final implementations of the creation functions of a backend"""
        p = ctx.p
        vt = p.vtable(t.id, p.base_offset(t.id, ctx.cls(BACKEND).id))
        g = p.globals.get(vt[0]) if vt else None
        out = []
        for v in ctx.cls(BACKEND).virtuals:
            if v[1].startswith("create_") and g is not None:
                w = g["initmap"].get(vt[1] + 8 * v[0])
                if w is None or w[0] != "f" or w[1] not in p.funcs:
                    raise Broken("%s of %s" % (v[1], t.name))
                out.append(p.funcs[w[1]])
        if not out:
            raise Broken("creation functions of " + t.name)
        return out

    @staticmethod
    def arg(p, f, name):
        for k, d in enumerate(f.di[1:]):
            c = p.canon(d) if d >= 0 else -1
            if c >= 0 and p.types[c].name == name:
                return k
        return None

    @staticmethod
    def queue_arg(p, f):
        for k, d in enumerate(f.di[1:]):
            c = p.canon(d) if d >= 0 else -1
            if c >= 0 and p.types[c].tag in (TAG_REF, TAG_RREF):
                b = p.canon(p.types[c].base)
                if b >= 0 and QUEUE_IMPL in p.types[b].name:
                    return k
        return None

    # ------------------------------------------------------------------
    def forwarding(self, ctx):
        """objects which do not store a backend tell the one of the queue they use"""
        fs = [(t, f) for k in KINDS for t, f in ctx.overrides(k, "backend") if "xdrv" not in f.dem]
        for t, f in fs:
            ctx.job(f, ValueMonitor, label="backend of " + t.name, models=lambda: Models(kind_models()), sequential=True)
        for r in ctx.run():
            site = "%s:%d" % (ctx.p.funcs[r["fname"]].file, ctx.p.funcs[r["fname"]].line)
            for v in r["data"].get("values", ()):
                if isinstance(v, int):
                    ns = r["label"][len("backend of "):].split("::")
                    if len(ns) < 3 or self.values.get(ns[1]) != v:
                        ctx.violate("the backend told is not the one the object belongs to", site, r["label"])
                elif not (type(v) is tuple and v[0] == "y#"):
                    ctx.violate("the backend told is not the one the object belongs to", site, r["label"])
        ctx.counts["implementations of backend()"] = len(fs)


class ValueMonitor(Monitor):
    """values returned"""

    def __init__(self):
        self.data = {"values": set()}

    def event(self, eng, st, kind, *a):
        if kind == "RETURN":
            self.data["values"].add(a[0])


def first_use(eng, st):
    """local statics have not been initialised yet"""
    st.ghost["keep_globals"] = 1
    for g in eng.p.globals:
        if g.startswith("_ZGVZ"):
            st.mem[("G#", g)] = {0: (0, 1)}


def handle_const(ctx):
    """handles are not changed while they are being used"""
    p = ctx.p
    return {(ctx.cls(n).id, m[0]) for n in (QUEUE, "xdispatch::group") + HANDLES for m in ctx.cls(n).members}


class P20(Spec):
    id = "P20"
    technique = "abstract interpretation with dataflow of object identities and strings"
    explanation = (
        "Every function creating, copying, comparing or describing queues is interpreted abstractly with symbolic "
        "identities for objects and strings; the result is compared with what the handle has been created with. The "
        "functions returning shared queues and backends are interpreted twice in a row, the second time on behalf of "
        "another thread, and have to return the object of the first time without creating anything.")
    rules = (
        "queues created with a label store and return exactly this label and the implementation given",
        "copies and moved handles refer to the queue and have the label of the original",
        "handles are equal if, and only if, they refer to the same implementation, inequality is its negation",
        "main_queue(), global_queue(), the backends and the management objects are created once for all threads",
        "timers and notifiers return the queue they were created with",
    )
    assumptions = BASE_ASSUMPTIONS + ["strings are as documented by the standard, local statics are initialised once"]

    def check(self, ctx):
        p = ctx.p
        self.impl, self.label = queue_members(ctx)
        self.handles(ctx)
        self.copies(ctx)
        self.shared(ctx)
        ctx.run()
        for what, least in (("labels preserved", 8), ("comparisons decided", 4), ("copies preserved", 2),
                            ("shared objects", 7), ("target queues returned", 2)):
            if ctx.fact(what) < least and not ctx.violations:
                raise Broken("%s: %d" % (what, ctx.fact(what)))

    # ------------------------------------------------------------------
    def handles(self, ctx):
        p = ctx.p
        const = handle_const(ctx)
        for f in sorted(p.funcs.values(), key=lambda f: (f.dem, f.name)):
            if not f.blocks or not repo_file(f) or "/frontend/" in f.file or "xdrv" in f.dem:
                continue
            cname = p.types[p.canon(f.cls)].name if f.cls >= 0 else ""
            lab = self.string_arg(p, f)
            ret = p.types[p.canon(f.di[0])].name if f.di and f.di[0] >= 0 and p.canon(f.di[0]) >= 0 else ""
            isq = f.ctor and "~" not in f.base and (cname == QUEUE or self.is_queue(ctx, f.cls))
            if lab is not None and (ret == QUEUE or isq):
                impl = P19.queue_arg(p, f)
                if ret == QUEUE:
                    impl = None
                base = p.base_offset(p.canon(f.cls), ctx.cls(QUEUE).id) if isq and cname != QUEUE else 0

                def setup(eng, st, f, a, lab=lab, impl=impl, base=base):
                    first_use(eng, st)
                    st.ghost["out"] = ("p", a[0][1], a[0][2] + base)
                    st.ghost["label"] = eng.models.sid(eng, st, a[arg_pos(f, lab)])
                    st.ghost["impl"] = eng.load(st, a[arg_pos(f, impl)], 8, "p") if impl is not None else None
                ctx.job(f, lambda: LabelMonitor(self.impl, self.label), setup=setup, label="label " + f.dem,
                        models=lambda: Models(dict(QT_MODELS, **dict(MANAGE, **kind_models()))),
                        opaque={BY_TYPE: by_type_model}, const_extra=const | qt_const(ctx), sequential=True)
            if cname == QUEUE and f.base == "label":
                def setup(eng, st, f, a):
                    st.ghost["want"] = eng.models.sid(eng, st, ("p", THIS, self.label))
                    st.ghost["out"] = a[0]
                ctx.job(f, ReturnsMonitor, setup=setup, label=f.dem, const_extra=const, sequential=True)
            if cname == QUEUE and f.base == "implementation":
                def setup(eng, st, f, a):
                    st.ghost["wantp"] = eng.load(st, ("p", THIS, self.impl), 8, "p")
                    st.ghost["out"] = a[0]
                ctx.job(f, ReturnsMonitor, setup=setup, label=f.dem, const_extra=const, sequential=True)
            if cname == QUEUE and f.base in ("operator==", "operator!="):
                for eq in (True, False):
                    def setup(eng, st, f, a, eq=eq):
                        x = eng.load(st, ("p", THIS, self.impl), 8, "p")
                        if eq:
                            eng.store(st, ("p", a[1][1], a[1][2] + self.impl), x, 8)
                        else:
                            y = eng.load(st, ("p", a[1][1], a[1][2] + self.impl), 8, "p")
                            eng.assume_cmp(st, "ne", x, y)
                    want = int(eq == (f.base == "operator=="))
                    ctx.job(f, lambda want=want: CompareMonitor(want), setup=setup, label="%s %s" % (f.dem, eq),
                            const_extra=const, sequential=True)
            if cname in HANDLES and ret == QUEUE:
                moff = [off for nm, off, tid in ctx.cls(cname).members if p.types[p.canon(tid)].name == QUEUE][0]

                def setup(eng, st, f, a, moff=moff):
                    st.ghost["wantp"] = eng.load(st, ("p", THIS, moff + self.impl), 8, "p")
                    st.ghost["out"] = ("p", a[0][1], a[0][2] + self.impl)
                ctx.job(f, lambda: ReturnsMonitor("target queues returned"), setup=setup, label=f.dem, const_extra=const,
                        sequential=True)
            if f.ctor and "~" not in f.base and cname in HANDLES and P19.takes_queue(p, f):
                moff = [off for nm, off, tid in ctx.cls(cname).members if p.types[p.canon(tid)].name == QUEUE][0]
                k = [k for k, d in enumerate(f.di[1:]) if k and d >= 0 and p.types[p.canon(d)].tag in (TAG_REF, TAG_RREF) and
                     p.types[p.canon(p.types[p.canon(d)].base)].name == QUEUE][0]

                def setup(eng, st, f, a, moff=moff, k=k):
                    q = a[arg_pos(f, k)]
                    st.ghost["wantp"] = eng.load(st, ("p", q[1], q[2] + self.impl), 8, "p")
                    eng.assume_cmp(st, "ne", st.ghost["wantp"], 0)
                    st.ghost["out"] = ("p", a[0][1], a[0][2] + moff + self.impl)
                ctx.job(f, lambda: ReturnsMonitor("target queues stored"), setup=setup, label=f.dem, const_extra=const,
                        models=lambda: Models(kind_models()), opaque={BY_TYPE: by_type_model}, sequential=True)

    @staticmethod
    def is_queue(ctx, cls):
        return cls >= 0 and ctx.p.base_offset(ctx.p.canon(cls), ctx.cls(QUEUE).id) is not None

    @staticmethod
    def string_arg(p, f):
        for k, d in enumerate(f.di[1:]):
            c = p.canon(d) if d >= 0 else -1
            if c >= 0 and p.types[c].tag in (TAG_REF, TAG_RREF):
                b = p.canon(p.types[c].base)
                if b >= 0 and p.types[b].name.startswith(("std::__cxx11::basic_string<char", "basic_string<char")):
                    return k
        return None

    # ------------------------------------------------------------------
    def copies(self, ctx):
        p = ctx.p
        n = 0
        for f in ctx.methods(QUEUE):
            if not (f.ctor and "~" not in f.base or f.base == "operator=") or len(f.di) != 3 or f.di[2] < 0:
                continue
            c = p.canon(f.di[2])
            if p.types[c].tag not in (TAG_REF, TAG_RREF) or p.types[p.canon(p.types[c].base)].name != QUEUE:
                continue
            n += 1

            def setup(eng, st, f, a):
                q = a[1]
                st.ghost["label"] = eng.models.sid(eng, st, ("p", q[1], q[2] + self.label))
                st.ghost["impl"] = eng.load(st, ("p", q[1], q[2] + self.impl), 8, "p")
                st.ghost["out"] = a[0]
            ctx.job(f, lambda: LabelMonitor(self.impl, self.label, "copies preserved"), setup=setup, label="copy " + f.dem,
                    sequential=True)
        ctx.floor("functions copying queues", n, 2)

    # ------------------------------------------------------------------
    def shared(self, ctx):
        """objects of which there is exactly one"""
        p = ctx.p
        values = enum_values(p, "xdispatch::queue_priority")
        backends = enum_values(p, BACKENDS)
        n = 0
        for f in sorted(p.funcs.values(), key=lambda f: (f.dem, f.name)):
            if not f.blocks or not repo_file(f) or "/frontend/" in f.file:
                continue
            cases = None
            opaque = {BY_TYPE: by_type_model}
            if f.key == "xdispatch::main_queue":
                cases, off = [None], self.impl
            elif f.key == "xdispatch::global_queue":
                cases, off = sorted(values.values()), self.impl
            elif f.key == BY_TYPE:
                cases, off, opaque = sorted(backends.values()), None, {}
            elif f.key.endswith("_backend_get_static_instance_impl"):
                cases, off, opaque = [None], None, {}
            for case in cases or ():
                n += 1

                def setup(eng, st, f, a, case=case, off=off):
                    first_use(eng, st)
                    a = list(a)
                    if case is not None:
                        a[-1] = case
                    st.ghost["args"] = tuple(a)
                    st.ghost["out"] = a[0] if off is not None else None
                    return a
                ctx.job(f, lambda f=f, off=off: OnceMonitor(f.name, off), setup=setup, label="once %s %s" % (case, f.dem),
                        models=lambda: Models(kind_models()), opaque=opaque, sequential=True)
        ctx.floor("functions returning shared objects", n, 8)


class LabelMonitor(Monitor):
    """a queue has the label and the implementation given"""

    def __init__(self, impl, label, what="labels preserved"):
        self.off = impl, label
        self.what = what

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        if kind != "RETURN":
            return
        o = g["out"]
        if eng.models.sid(eng, st, ("p", o[1], o[2] + self.off[1])) != g["label"]:
            return eng.violate(st, "a queue has another label than the one given")
        v = eng.load(st, ("p", o[1], o[2] + self.off[0]), 8, "p")
        if g.get("impl") is not None and v != g["impl"]:
            return eng.violate(st, "a handle refers to another queue than the one given")
        self.facts[self.what] = self.facts.get(self.what, 0) + 1


class ReturnsMonitor(Monitor):
    """what is returned"""

    def __init__(self, what="labels preserved"):
        self.what = what

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        if kind != "RETURN":
            return
        o = g["out"]
        if "want" in g and eng.models.sid(eng, st, o) != g["want"]:
            return eng.violate(st, "another label than the one of the queue is returned")
        if "wantp" in g:
            v = eng.load(st, o, 8, "p")
            if v != g["wantp"] and not same(eng, st, v, g["wantp"]):
                return eng.violate(st, "another queue is used than the one given")
        self.facts[self.what] = self.facts.get(self.what, 0) + 1


class CompareMonitor(Monitor):
    """equality of handles"""

    def __init__(self, want):
        self.want = want

    def event(self, eng, st, kind, *a):
        if kind != "RETURN":
            return
        if eng.truth(st, a[0]) is not bool(self.want):
            return eng.violate(st, "handles do not compare equal exactly if they refer to the same queue")
        self.facts["comparisons decided"] = self.facts.get("comparisons decided", 0) + 1


class OnceMonitor(Monitor):
    """calls a function a second time from another thread"""

    def __init__(self, name, off):
        self.name = name
        self.off = off

    def start(self, eng, st):
        st.ghost["phase"] = 0
        st.ghost["first"] = None

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "CREATE" and g["phase"]:
            return eng.violate(st, "an object which shall be shared is created once more")
        elif kind == "RETURN":
            if self.off is not None:
                v = eng.load(st, ("p", g["out"][1], g["out"][2] + self.off), 8, "p")
            else:
                v = a[0]
            if g["phase"]:
                if v != g["first"] and not same(eng, st, v, g["first"]):
                    return eng.violate(st, "another object than before is returned, it is not shared")
                self.facts["shared objects"] = self.facts.get("shared objects", 0) + 1
                return
            g["phase"] = 1
            g["first"] = v
            # somebody else has variables of his own
            for o in [o for o in st.mem if o[0] == "G#" and eng.p.globals.get(o[1], {}).get("tls")]:
                del st.mem[o]
                if o[1].startswith("_ZGV"):
                    st.mem[o] = {0: (0, 1)}
            st.conts = (("call", self.name, g["args"]),)


def arg_pos(f, k):
    return k + (1 if f.argattrs and f.argattrs[0] == "sret" else 0)


def nonnull_sp(eng, st, f, a, x):
    """arguments which are references to shared pointers are not empty"""
    i = list(a).index(x)
    k = i - (1 if f.argattrs and f.argattrs[0] == "sret" else 0)
    if k + 1 >= len(f.di) or k < 0:
        return
    p = eng.p
    c = p.canon(f.di[k + 1]) if f.di[k + 1] >= 0 else -1
    if c >= 0 and p.types[c].tag in (TAG_REF, TAG_RREF):
        b = p.canon(p.types[c].base)
        if b >= 0 and p.types[b].name.startswith("std::shared_ptr<"):
            v = eng.load(st, x, 8, "p")
            eng.assume_cmp(st, "ne", v, 0)
    return


def queue_members(ctx):
    """offsets of the implementation and the label of a queue"""
    p = ctx.p
    q = ctx.cls(QUEUE)
    impl = [off for n, off, tid in q.members if QUEUE_IMPL in p.types[p.canon(tid)].name]
    lab = [off for n, off, tid in q.members if "basic_string<char" in p.types[p.canon(tid)].name]
    if len(impl) != 1 or len(lab) != 1:
        raise Broken("members of " + QUEUE)
    return impl[0], lab[0]
