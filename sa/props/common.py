"""Helpers shared by the property automata."""
from engine import *
from ir import *
from models import Models, ExactModels

THIS = ("S#", ("this",), 0)
THREADPOOL = "xdispatch::naive::ithreadpool"
QUEUE_IMPL = "xdispatch::iqueue_impl"
OPQ = "xdispatch::naive::operation_queue"
NS = "xdispatch::"

BASE_ASSUMPTIONS = [
    "the C++ standard library, Qt and the vendored lock free queue behave as documented, "
    "they are replaced by models of their contract",
    "the analysed configuration is the one built here (naive and Qt 5 backends on Linux)",
    "memory is only modified through pointers of the right type; allocations do not fail",
]


def member_offsets(p, cls, pred):
    """[(offset, name)] of the direct members whose type name satisfies pred"""
    out = []
    t = p.types[p.canon(cls)]
    for n, off, tid in t.members:
        c = p.canon(tid)
        if c >= 0 and pred(p.types[c].name):
            out.append((off, n))
    for b, off in p.bases_of(t.id):
        if b != t.id:
            for o, n in member_offsets_flat(p, b, pred):
                out.append((o + off, n))
    return out


def member_offsets_flat(p, cls, pred):
    out = []
    for n, off, tid in p.types[p.canon(cls)].members:
        c = p.canon(tid)
        if c >= 0 and pred(p.types[c].name):
            out.append((off, n))
    return out


def is_op_container(name):
    return ("shared_ptr<xdispatch::operation>" in name or "operation_ptr" in name) and \
        name.split("<")[0].split("::")[-1] in ("list", "vector", "deque", "queue")


def taken_first(kind, a):
    """erasing the first element is the same as popping it"""
    if kind == "CERASE" and len(a) > 3 and a[3] == "front":
        return "CPOP", (a[0], "pop_front", a[1], a[2])
    return kind, a


def null(eng, st, v):
    """True null, False not null, None unknown"""
    if v == 0:
        return True
    return eng.nullness(st, v) if is_ptr(v) else None


def deref(eng, st, ref):
    """pointer held by the shared_ptr behind a reference"""
    return eng.load(st, ref, 8, "p") if is_ptr(ref) else ref


def same(eng, st, a, b):
    """are two pointers the same for sure"""
    if a == b:
        return True
    if is_ptr(a) and is_ptr(b):
        return eng.cmp_truth(st, "eq", a, b) is True
    return False


def span(eng, st, v):
    """bounds of an integer value"""
    if isinstance(v, int):
        return (v, v)
    if isinstance(v, tuple) and v and v[0] == "+":
        lo, hi = eng.bounds(st, v[1])
        return (lo + v[2], hi + v[2])
    return eng.bounds(st, v)


def empty(eng, st, lst):
    """is a container empty: True, False or None"""
    n = eng.models.size(eng, st, lst)
    return eng.cmp_truth(st, "eq", n, 0)


def append_rely(match):
    """others only ever append to the container"""
    def rely(eng, st, o, off, v):
        if not match(eng, st, o, off):
            return None
        if v[0] != "L":
            return None
        segs = v[1]
        lo = 0
        if segs and segs[-1][0] == "sg":
            lo = eng.models.lo(eng, st, segs[-1][1])
            segs = segs[:-1]
        n = eng.new(st, "y#", ("more", off))
        st.iv[n] = (lo, INF)
        return ("L", segs + (("sg", n),))
    return rely


class Chain(Monitor):
    """runs several functions on the same object in a row, the automaton is
    only active in the last of them (and in what it hands over)"""
    skip = 0

    def __init__(self, skip=0):
        self.skip = skip

    def start(self, eng, st):
        st.ghost["skip"] = self.skip
        if self.skip == 0:
            self.begin(eng, st)

    def event(self, eng, st, kind, *a):
        k = st.ghost.get("skip", 0)
        if k > 0:
            if kind == "CONT":
                st.ghost["skip"] = k - 1
                if k == 1:
                    self.begin(eng, st)
            elif kind == "TERMINATE":
                st.dead = True
            return
        self.on(eng, st, kind, *a)

    def begin(self, eng, st):
        pass

    def on(self, eng, st, kind, *a):
        pass

    def end(self, eng, st, how):
        if st.ghost.get("skip", 0) > 0:
            return
        self.finished(eng, st, how)

    def finished(self, eng, st, how):
        pass

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n


def chain_setup(fns):
    """entry is a constructor, fns follow on the same object"""
    def setup(eng, st, f, a):
        this = a[0]
        out = []
        for i, g in enumerate(fns):
            eng.argname = "arg%s" % ("'" * (i + 1))
            out.append(("call", g.name, tuple(eng.entry_args(st, g, this))))
        eng.argname = "arg"
        eng.last_args = out[-1][2] if out else tuple(a)
        st.conts = tuple(out)
        return a
    return setup


def ctors(ctx, cls):
    c = ctx.p.canon(ctx.cls(cls).id)
    short = cls.split("::")[-1]
    out = []
    for f in ctx.methods(cls):
        if f.ctor and "~" not in f.base and not f.artificial and not copyish(ctx, f):
            out.append(f)
    if not out:
        out = [f for f in ctx.methods(cls) if f.ctor and "~" not in f.base and not copyish(ctx, f)]
    if not out:
        raise Broken("no constructor of %s found" % cls)
    return out


def copyish(ctx, f):
    p = ctx.p
    if len(f.di) == 3:
        t = p.types[p.canon(f.di[2])]
        if t.tag in (TAG_REF, TAG_RREF) and p.canon(t.base) == p.canon(f.cls):
            return True
    return False


def const_between(ctx, cls, fns):
    """members which are only modified by the given functions (and during
    construction or destruction)"""
    import immut
    if ctx._imm is None:
        ctx._imm = immut.mutable_members(ctx)
    names = {f.name for f in fns}
    c = ctx.p.canon(ctx.cls(cls).id)
    return {k for k, w in ctx._imm.items() if k[0] == c and w <= names}


def queue_members(p, cls):
    """offsets of the implementation pointers of the queues an object holds"""
    q = p.by_name.get("xdispatch::queue")
    if q is None:
        raise Broken("class queue vanished")
    impl = [off for n, off, tid in q.members if QUEUE_IMPL in p.types[p.canon(tid)].name]
    if len(impl) != 1:
        raise Broken("implementation of a queue not recognised")
    return [off + impl[0] for off, n in member_offsets(p, cls, lambda t: t == "xdispatch::queue")]


def assume_queues(eng, st, p, cls, this):
    """queues always have an implementation"""
    for off in queue_members(p, cls):
        v = eng.load(st, ("p", this[1], this[2] + off), 8, "p")
        if is_ptr(v):
            eng.assume_cmp(st, "ne", v, 0)
