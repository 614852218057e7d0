"""P21: objects outlive the work they scheduled."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import *
from props.entries import entries
from props.pool import MANAGER, SEM_MODELS


DEFERRED = ("xdispatch::operation", "xdispatch::parameterized_operation", "QRunnable", "QEvent")
OWNERS = ("std::shared_ptr<", "std::__shared_ptr<", "std::unique_ptr<", "std::weak_ptr<", "std::__weak_ptr<", "std::function<",
          "std::_Function_base", "std::__cxx11::basic_string<", "std::vector<", "std::__cxx11::list<", "std::deque<",
          "std::__shared_count<", "std::__weak_count<", "std::_Any_data", "QPointer<", "QWeakPointer<", "std::exception_ptr")


def deferred_bases(p):
    out = []
    for n in DEFERRED:
        for t in p.types:
            if t.tag in (TAG_CLASS, TAG_STRUCT) and not t.fwd and (t.name == n or t.name.startswith(n + "<")):
                out.append(p.canon(t.id))
    return sorted(set(out))


class Closures:
    """what an operation refers to, by the types of its members"""

    def __init__(self, p):
        self.p = p
        self.bases = deferred_bases(p)
        self.memo = {}

    def is_deferred(self, c):
        c = self.p.canon(c)
        if c < 0:
            return False
        if c not in self.memo:
            self.memo[c] = any(c == b or self.p.base_offset(c, b) is not None for b in self.bases)
        return self.memo[c]

    def deferred_at(self, eng, st, v):
        if not is_ptr(v) or v[1][0] not in ("H#", "A#") or type(v[2]) is not int:
            return None
        for o, c in st.typ.get(v[1], ()):
            if o == v[2] and self.is_deferred(c):
                return c
        return None

    def owner(self, path):
        return [n for n, t in path if self.p.types[t].name.startswith(OWNERS)]

    def walk(self, eng, st, obj):
        """objects owned, [(pointer, member, type)] of pointers which own nothing"""
        p = self.p
        owned = []
        raw = []
        for off in sorted((k for k in st.mem.get(obj, {}) if type(k) is int)):
            v = st.mem[obj][off][0]
            if not is_ptr(v):
                continue
            c, rel = eng.typeat(st, obj, off)
            if c < 0 or type(rel) is not int or rel < 0:
                continue
            path, tid, const, rest = p.leaf(p.canon(c), rel)
            if path and path[-1][0].startswith("_vptr"):
                continue
            if self.owner(path):
                if v[1] not in owned:
                    owned.append(v[1])
            elif tid >= 0 and p.types[tid].tag in (TAG_PTR, TAG_REF, TAG_RREF):
                name = next((n for n, t in reversed(path) if n), "?")
                raw.append((v, name, p.canon(p.types[tid].base)))
        return owned, raw



BARRIER = "xdispatch::lightweight_barrier"
INTERFACES = {("xdispatch::iqueue_impl", "async"), ("xdispatch::iqueue_impl", "apply"), ("xdispatch::iqueue_impl", "after"),
              ("xdispatch::naive::ithreadpool", "execute"), ("xdispatch::igroup_impl", "async"),
              ("xdispatch::igroup_impl", "notify"), ("xdispatch::itimer_impl", "handler"),
              ("xdispatch::isocket_notifier_impl", "handler")}
FOREVER = ((1 << 63) - 1, (1 << 64) - 1, -1)


def barrier_wait(eng, st, c, key, args):
    r = eng.result(st, c, args)
    t = args[1] if len(args) > 1 else FOREVER[0]
    if is_ptr(t):
        t = eng.load(st, t, 8, "i")
    eng.emit(st, "BWAIT", args[0], t in FOREVER, r)
    if st.dead:
        return False
    eng.havoc(st, "blocking")
    return eng.ret(st, c, r)


def barrier_complete(eng, st, c, key, args):
    eng.emit(st, "BCOMPLETE", args[0])
    if st.dead:
        return False
    return eng.ret(st, c, None)


BARRIERS = {BARRIER + "::wait": barrier_wait, BARRIER + "::complete": barrier_complete,
            "xdispatch::naive::consumable::wait_for_consumed": barrier_wait}


def described(p, c):
    return p.types[c].name if c >= 0 else "?"


class LifeMonitor(Monitor):
    """captures of what is handed over to be executed later"""
    wants_mem = True

    def __init__(self, cl, immortal, borrowed):
        self.cl = cl
        self.immortal = immortal            # classes whose objects are never destroyed
        self.borrowed = borrowed            # offsets of references captured by this closure, if it is one
        self.data = {"quiesce": {}, "threads": {}, "own": {}, "stores": {}}

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["this"] = ("p", THIS, 0)
        g["pend"] = ()          # (class of the operation, pointer, member, class referred to, how, what it owns)
        g["maybe"] = ()
        g["done"] = ()
        g["started"] = ()

    # -------------------------------------------------------- handing over
    def handed(self, eng, st, v, c, how):
        g = st.ghost
        p = eng.p
        owned, raw = self.cl.walk(eng, st, v[1])
        self.count("operations handed over")
        self.count("captures owning what they refer to", len(owned))
        for x, name, static in raw:
            t = described(p, self.dynamic(eng, st, x, static))
            if static < 0 or not t.startswith(("xdispatch::", "waitable", "std::", "Q")) or t.startswith("QEvent"):
                continue        # identifiers and objects of the user
            if x[1] in owned:
                self.count("references into objects owned")
                continue
            if x[1][0] == "G#" or t in self.immortal:
                self.count("references to objects never destroyed")
                continue
            g["pend"] = tuple(e for e in g["pend"] if (e[0], e[2]) != (c, name)) + ((c, x, name, t, how, tuple(owned)),)

    def dynamic(self, eng, st, x, static):
        """the class of the object a pointer of some static type refers to"""
        p = eng.p
        best = static
        for o, c in st.typ.get(x[1], ()):
            c = p.canon(c)
            if o == x[2] and c >= 0 and static >= 0 and p.base_offset(c, static) == 0:
                if best == static or p.base_offset(c, best) == 0:
                    best = c
        return best

    def find_ops(self, eng, st, a):
        out = []
        for x in a:
            if not is_ptr(x):
                continue
            for v in (x, eng.load(st, x, 8, "p") if x[1][0] in ("A#", "H#", "E#") and type(x[2]) is int else None):
                c = self.cl.deferred_at(eng, st, v) if v else None
                if c is not None and v not in out:
                    out.append(v)
        return out

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
            return
        if g["done"]:
            self.after_completion(eng, st, kind, a)
            if st.dead:
                return
        if kind == "VCALL" and (a[0], a[1]) in INTERFACES or kind in ("CINSERT", "ENQ") or \
                kind == "EXT" and ("QThreadPool" in a[0] or "postEvent" in a[0]):
            if kind == "CINSERT":
                ops = self.find_ops(eng, st, a[2:3])
            else:
                ops = self.find_ops(eng, st, a[2:] if kind == "VCALL" else a[1:])
            for v in ops:
                self.decided(eng, st)
                again = [e for e in g["pend"] if e[0] == self.cl.deferred_at(eng, st, v) and self.frame_local(e[1])]
                if again:
                    return self.unwaited(eng, st, again[0])
                own = kind == "CINSERT" and is_ptr(a[0])
                self.handed(eng, st, v, self.cl.deferred_at(eng, st, v), ("member", a[0][1]) if own else ("away", None))
        elif kind == "BWAIT":
            if a[1] is True:
                self.waited(g, a[0])
            else:
                g["maybe"] = tuple(e for e in g["maybe"] if e[0] != a[0]) + ((a[0], a[2]),)
        elif kind == "BCOMPLETE":
            self.count("completions")
            if any(a[0] == ("p", ("S#", ("ld", THIS, off), 0), 0) for off, t in self.borrowed.items() if t == BARRIER):
                g["done"] = (a[0],)
        elif kind == "THREAD":
            self.thread(eng, st, a[0])
        elif kind == "STORE":
            if is_ptr(a[0]) and a[0][1] == THIS and type(a[0][2]) is int:
                self.data["stores"][a[0][2]] = 1
            if g["started"]:
                self.late_store(eng, st, a[0])
        elif kind in ("RETURN", "UNWIND"):
            self.decided(eng, st)
            if kind == "RETURN":
                self.leftover(eng, st)
                self.own_operations(eng, st)

    def decided(self, eng, st):
        """which of the waits with a timeout have been successful"""
        for b, r in st.ghost["maybe"]:
            if eng.cmp_truth(st, "ne", r, 0) is True:
                self.waited(st.ghost, b)

    def unwaited(self, eng, st, e):
        return eng.violate(st, "an operation handed over refers to a local %s (%s) and is not waited for" % (e[3], e[2]))

    def own_operations(self, eng, st):
        """operations kept in a member which refer to the object itself"""
        p = eng.p
        for off, e in list(st.mem.get(THIS, {}).items()):
            v = e[0] if type(off) is int else None
            if v is None or not is_ptr(v) or self.cl.deferred_at(eng, st, v) is None:
                continue
            for x, name, static in self.cl.walk(eng, st, v[1])[1]:
                if x[1] != THIS:
                    continue
                c, rel = eng.typeat(st, THIS, 0)
                self.data["own"][described(p, p.canon(c))] = off

    def frame_local(self, x):
        return type(x[1]) is tuple and x[1][0] == "A#"

    def waited(self, g, b):
        """the operations referring to a barrier waited for have ended"""
        if not is_ptr(b):
            return
        done = {n for n, x, m, t, h, o in g["pend"] if is_ptr(x) and x[1] == b[1] or b[1] in o}
        if done:
            self.count("operations waited for")
        g["pend"] = tuple(e for e in g["pend"] if e[0] not in done)

    def leftover(self, eng, st):
        g = st.ghost
        for e in g["pend"]:
            n, x, name, t, how, o = e
            if type(x) is not tuple or len(x) != 3 or type(x[1]) is not tuple:
                continue        # null
            if self.frame_local(x):
                return self.unwaited(eng, st, e)
            key = (t, "member" if how[0] == "member" and how[1] == x[1] else "away")
            if key not in self.data["quiesce"]:
                self.data["quiesce"][key] = (name, eng.site(st) if hasattr(eng, "site") else None)
        g["pend"] = ()

    # ------------------------------------------------------------- threads
    def thread(self, eng, st, state):
        if not is_ptr(state):
            return
        self.count("threads started")
        p = eng.p
        for off, e in st.mem.get(state[1], {}).items():
            v = e[0] if type(off) is int else None
            if not is_ptr(v) or type(v[2]) is not int:
                continue
            k = self.with_thread(eng, st, v)
            if k is None:
                continue
            self.data["threads"][described(p, k[0])] = 1
            st.ghost["started"] = st.ghost["started"] + ((("p", v[1], k[1]), k[0]),)

    def with_thread(self, eng, st, v):
        """the class of the object at some address which has a thread as its member"""
        p = eng.p
        for o, c in st.typ.get(v[1], ()):
            if o > v[2]:
                continue
            for t, off in self.parts(p, p.canon(c), o, v[2]):
                T = p.types[t]
                if T.name.startswith("xdispatch::") and any(p.types[p.canon(m)].name == "std::thread"
                                                           for n, mo, m in T.members if p.canon(m) >= 0):
                    return t, off
        return None

    def parts(self, p, c, base, at):
        """[(class, offset)] of an object and those of its parts an address lies in"""
        out = [(c, base)]
        if c < 0 or p.types[c].tag not in (TAG_CLASS, TAG_STRUCT):
            return []
        for n, off, tid in list(p.types[c].members) + [("", o, b) for b, o in p.bases_of(c) if b != c]:
            t = p.canon(tid)
            if t >= 0 and p.types[t].tag in (TAG_CLASS, TAG_STRUCT) and base + off <= at < base + off + max(p.sizeof(t), 1):
                out += self.parts(p, t, base + off, at)
        return out

    def late_store(self, eng, st, ptr):
        p = eng.p
        for x, k in st.ghost["started"]:
            if not is_ptr(ptr) or ptr[1] != x[1] or type(ptr[2]) is not int:
                continue
            rel = ptr[2] - x[2]
            if rel < 0 or rel >= p.sizeof(k):
                continue
            path, tid, const, rest = p.leaf(k, rel)
            names = [p.types[t].name for n, t in path]
            if any(n.startswith(("std::thread", "std::weak", "std::__weak", "std::enable_shared", "std::atomic", "std::__atomic"))
                   for n in names):
                continue
            if path and path[-1][0].startswith("_vptr"):
                continue
            what = next((n for n, t in reversed(path) if n), "?")
            return eng.violate(st, "%s is initialised after the thread using it was started" % what)

    # ---------------------------------------------- the end of an operation
    def is_borrowed(self, v):
        """reached by one of the references captured"""
        if not self.borrowed or not is_ptr(v):
            return False
        o = v[1]
        while isinstance(o, tuple) and o and o[0] == "S#":
            k = o[1]
            if not (isinstance(k, tuple) and len(k) >= 2 and k[0] == "ld"):
                return False
            if k[1] == THIS and len(k) > 2 and k[2] in self.borrowed:
                return True
            o = k[1]
        return False

    def after_completion(self, eng, st, kind, a):
        if kind in ("RETURN", "UNWIND", "CONT", "BCOMPLETE"):
            return
        for x in a:
            if self.is_borrowed(x) or is_ptr(x) is False and isinstance(x, tuple) and len(x) == 2 and \
                    isinstance(x[0], tuple) and self.is_borrowed(("p", x[0], x[1])):
                return eng.violate(st, "what is waiting for an operation is accessed after this operation notified its end")


def never_destroyed(ctx):
    """classes whose destructors are not used by anybody"""
    p = ctx.p
    refs = ctx.refs()
    out = set()
    for t in p.types:
        if t.tag not in (TAG_CLASS, TAG_STRUCT) or t.fwd or not t.name.startswith("xdispatch::") or p.canon(t.id) != t.id:
            continue
        short = t.name.split("<")[0].split("::")[-1]
        d = [f for f in p.funcs.values() if f.base == "~" + short and p.canon(f.cls) == t.id]
        if not d or t.virtuals or "/include/" in t.file:
            continue
        names = {f.name for f in d}
        if not any(set(refs.get(n, ())) - names for n in names):
            out.add(t.name)
    return out


def captured_references(p, f):
    """offsets of what a closure captured without owning it"""
    if f.base != "operator()" or f.cls < 0:
        return {}
    return dict(pointers(p, p.canon(f.cls), 0, 0))


def pointers(p, c, base, depth):
    out = []
    for n, off, tid in p.types[c].members:
        t = p.canon(tid)
        if t < 0 or n.startswith("_vptr"):
            continue
        if p.types[t].tag in (TAG_PTR, TAG_REF, TAG_RREF):
            out.append((base + off, described(p, p.canon(p.types[t].base))))
        elif p.types[t].tag in (TAG_CLASS, TAG_STRUCT) and not p.types[t].name.startswith(OWNERS) and depth < 3:
            out.extend(pointers(p, t, base + off, depth + 1))
    return out


# ----------------------------------------------------- ends of a destruction
def no_wait(eng, st, c, a):
    eng.emit(st, "POOLWAIT", a[0], a[1] if len(a) > 1 else FOREVER[0])
    if st.dead:
        return False
    eng.havoc(st, "blocking")
    return eng.ret(st, c, eng.result(st, c, a))


def guarded(eng, st, c, a):
    """target of a QPointer, reset when the object was destroyed"""
    def none(s):
        eng.emit(s, "ABSENT", a[0])
        return "DEAD" if s.dead else 0
    target = eng.load(st, plus(a[0], 8), 8, "p")
    some = lambda s: target if eng.assume_cmp(s, "ne", target, 0) else "DEAD"
    return eng.fork(st, c, [none, some] if is_ptr(target) else [none])


WAIT_MODELS = {"QWeakPointer::internalData": guarded, "QPointer::data": guarded,
               "QThreadPool::waitForDone": no_wait}


class DestroyMonitor(Monitor):
    """what a destructor has established when it lets go of its object"""

    def __init__(self):
        self.data = {"zero": None, "paths": 0, "waits": 0, "unjoined": 0}

    def start(self, eng, st):
        st.ghost["waited"] = 0
        st.ghost["this"] = ("p", THIS, 0)
        st.ghost["absent"] = 0
        st.ghost["joined"] = ()

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "POOLWAIT":
            t = a[1]
            if rooted(a[0]) and (t in FOREVER or t in ((1 << 32) - 1,)):
                g["waited"] = 1
        elif kind == "ABSENT" and is_ptr(a[0]) and a[0][1] == THIS:
            g["absent"] = 1
        elif kind == "UNLOCK" and is_ptr(a[0]) and a[0][1] == THIS:
            for n, off, size in scalars(eng.p, eng.p.canon(eng.typeat(st, THIS, 0)[0])):
                g["at%d" % off] = eng.load(st, ("p", THIS, off), size, "i%d" % (8 * size))
        elif kind == "JOIN" and a[1] == "join" and is_ptr(a[0]) and a[0][1] == THIS:
            self.facts["threads joined"] = self.facts.get("threads joined", 0) + 1
            g["joined"] = tuple(sorted(set(g["joined"]) | {a[0][2]}))
        elif kind == "RETURN":
            self.data["paths"] += 1
            if g["waited"] or g["absent"]:
                self.data["waits"] += 1
            z = {int(k[2:]) for k, v in g.items() if k.startswith("at") and k[2:].isdigit() and
                 eng.truth(st, v) is False}
            self.data["zero"] = sorted(z if self.data["zero"] is None else set(self.data["zero"]) & z)
            self.gone(eng, st)

    def gone(self, eng, st):
        pass


class JoinMonitor(DestroyMonitor):
    """an object having a thread waits for its end before its members go away"""

    def __init__(self, offsets):
        DestroyMonitor.__init__(self)
        self.offsets = offsets

    def event(self, eng, st, kind, *a):
        if kind == "FREE" and a[0] == ("p", THIS, 0):
            st.ghost["freed"] = 1
        if not st.ghost.get("freed"):
            for off in self.offsets:
                st.ghost["h%d" % off] = eng.load(st, ("p", THIS, off), 8, "i64")
        if kind == "JOIN" and a[1] == "detach" and is_ptr(a[0]) and a[0][1] == THIS:
            return eng.violate(st, "the thread using an object is left behind when the object ends its life")
        if kind == "TERMINATE" and any(off not in st.ghost["joined"] and eng.truth(st, st.ghost["h%d" % off]) is True
                                       for off in self.offsets):
            return eng.violate(st, "the object ends its life without joining the thread using it")
        if kind in ("RELEASE", "CDTOR") and a and is_ptr(a[0]) and a[0][1] == THIS and self.missing(eng, st):
            return eng.violate(st, "members are destroyed before the thread using them was joined")
        DestroyMonitor.event(self, eng, st, kind, *a)

    def missing(self, eng, st):
        for off in self.offsets:
            if off in st.ghost["joined"]:
                continue
            if eng.truth(st, st.ghost["h%d" % off]) is False:
                continue
            return True
        return False

    def gone(self, eng, st):
        self.facts["destructors of threads"] = self.facts.get("destructors of threads", 0) + 1
        if self.missing(eng, st):
            eng.violate(st, "the object ends its life without joining the thread using it")


def rooted(v):
    """was the pointer obtained from the object itself"""
    if not is_ptr(v):
        return False
    o = v[1]
    while isinstance(o, tuple) and o and o[0] == "S#":
        if o == THIS:
            return True
        k = o[1]
        if not (isinstance(k, tuple) and len(k) >= 2 and k[0] == "ld"):
            return False
        o = k[1]
    return False


def scalars(p, cls):
    return [(n, off, p.sizeof(p.canon(t))) for n, off, t in p.types[cls].members
            if p.canon(t) >= 0 and p.types[p.canon(t)].name in ("bool", "int", "unsigned int", "unsigned long", "long",
                                                                "unsigned char", "char", "short", "unsigned short")]


# -------------------------------------------- work an object has with itself
class WorkMonitor(Chain):
    """the operation of an object which refers to it, executed at any time:
    nothing of the object is used once its lock was given up with all of the
    members which keep the destructor waiting being zero"""
    wants_mem = True

    def __init__(self, flags, names):
        Chain.__init__(self, 0)
        self.flags = flags
        self.names = names

    def begin(self, eng, st):
        st.ghost["this"] = ("p", THIS, 0)
        st.ghost["phase"] = "api"
        st.ghost["gone"] = 0

    def on(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
            return
        if kind == "RETURN" and g["phase"] == "api":
            for off, e in sorted(x for x in st.mem.get(THIS, {}).items() if type(x[0]) is int):
                v = e[0]
                if is_ptr(v) and v[1][0] == "H#" and eng.models.op_function(eng, st, v) is not None:
                    st.conts = (("exec", v, "work"),)
                    self.count("operations referring to their owner")
                    return
            st.dead = True
            return
        if kind == "CONT":
            g["phase"] = "work"
            g["gone"] = 0
            return
        if g["phase"] != "work":
            return
        if kind == "RETURN":
            self.count("work finished")
            if not g["gone"]:
                return eng.violate(st, "the destruction of an object waits forever as %s stays set" % self.names)
            return
        if g["gone"]:
            for x in a:
                if is_ptr(x) and x[1] == THIS:
                    return eng.violate(st, "an object is used by its work after its destruction was made possible (%s is zero)" %
                                       self.names)
            return
        if kind == "UNLOCK" and is_ptr(a[0]) and a[0][1] == THIS:
            self.count("lock releases of such work")
            vals = [eng.truth(st, eng.load(st, ("p", THIS, off), size, "i%d" % (8 * size))) for off, size in self.flags]
            if not any(v is True for v in vals):
                g["gone"] = 1
        elif kind == "STORE" and is_ptr(a[0]) and a[0][1] == THIS and a[0][2] in [o for o, n in self.flags] and \
                len(self.flags) == 1 and not any(l[0] == THIS for l in st.locks) and eng.truth(st, a[1]) is not True:
            g["gone"] = 1


# ------------------------------------------------------------- keeping alive
class KeepMonitor(Chain):
    """registering a queue and giving it back"""

    def __init__(self, skip, what, lst):
        Chain.__init__(self, skip)
        self.what = what
        self.lst = lst

    def begin(self, eng, st):
        g = st.ghost
        g["this"] = ("p", THIS, 0)
        g["phase"] = "api"
        g["attached"] = g["detached"] = g["ins"] = 0
        g["empty"] = 0
        g["elem"] = 0
        g["after"] = 0

    def on(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
            return
        if kind == "CONT":
            if g["phase"] == "api" and self.what == "detach":
                g["phase"] = "last"
            return
        if kind == "MANAGER":
            return self.manager(eng, st, a)
        if kind == "CINSERT" and is_ptr(a[0]) and a[0][1] == THIS and a[0][2] == self.lst:
            if g["phase"] == "api":
                g["ins"] += 1
                g["elem"] = eng.load(st, a[3], 8, "p") if is_ptr(a[3]) else 0
                g["back"] = 1 if a[1] == "back" else 0
            return
        if kind == "VCALL" and a[1] == "execute" and self.what == "async":
            return eng.violate(st, "work of a queue is scheduled which was given up before")
        if g["after"]:
            for x in a:
                if is_ptr(x) and x[1] == THIS:
                    return eng.violate(st, "a queue is used by the operation which gave it up")
        if kind == "RETURN":
            self.ended(eng, st)

    def manager(self, eng, st, a):
        g = st.ghost
        if a[0] == "attach":
            g["attached"] += 1
            if not is_ptr(a[1]) or eng.load(st, a[1], 8, "p") != ("p", THIS, 0):
                return eng.violate(st, "something else than the queue is kept alive")
            return
        g["detached"] += 1
        if a[1] != ("p", THIS, 0):
            return eng.violate(st, "something else than the queue is given up")
        if g["phase"] == "last":
            g["after"] = 1
            return
        if not any(l[0] == THIS for l in st.locks):
            return eng.violate(st, "a queue is given up without knowing whether operations are left")
        if empty(eng, st, ("p", THIS, self.lst)) is not True:
            return eng.violate(st, "a queue is given up while operations may be left in it")

    def ended(self, eng, st):
        g = st.ghost
        if self.what == "attach":
            self.count("queues registered")
            if g["attached"] != 1:
                return eng.violate(st, "a queue is registered %s when attached" % times(g["attached"]))
        elif self.what == "detach" and g["phase"] == "api":
            if g["detached"] > 1 or g["detached"] and g["ins"]:
                return eng.violate(st, "a queue is given up twice")
            if g["detached"]:
                self.count("queues given up at once")
                return
            if g["ins"] != 1 or not g["back"]:
                return eng.violate(st, "a queue is never given up")
            if eng.models.op_function(eng, st, g["elem"]) is None:
                return eng.violate(st, "a queue is never given up")
            st.conts = (("exec", g["elem"], "last"),)
        elif self.what == "detach":
            self.count("queues given up by their last operation")
            if g["detached"] != 1:
                return eng.violate(st, "a queue is given up %s by its last operation" % times(g["detached"]))
        elif self.what == "async":
            self.count("operations after detaching")


def times(n):
    return {0: "never", 1: "once", 2: "twice"}.get(n, "several times") if type(n) is int else "several times"


# --------------------------------------- queues using what others keep alive
def queue_model(what):
    def model(eng, st, c, a):
        eng.emit(st, "QUEUE", what, *a)
        if st.dead:
            return False
        return eng.ret(st, c, None)
    return model


class OwnerMonitor(Monitor):
    """implementations of queues register what they work with when created
    and give it back when destroyed"""

    def __init__(self, what):
        self.what = what

    def start(self, eng, st):
        st.ghost["this"] = ("p", THIS, 0)
        st.ghost["n"] = 0
        st.ghost["x"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        elif kind in ("QUEUE", "MANAGER"):
            if a[0] != self.what:
                return eng.violate(st, "%s when a queue is %s" % (
                    "registered" if a[0] == "attach" else "given up",
                    "destroyed" if a[0] == "attach" else "created"))
            x = a[1]
            if kind == "MANAGER" and a[0] == "attach":
                x = eng.load(st, x, 8, "p") if is_ptr(x) else x
            g["n"] += 1
            if not self.member(eng, st, x):
                return eng.violate(st, "something else is %s than what the queue works with" % (
                    "registered" if a[0] == "attach" else "given up"))
        elif kind == "RETURN":
            self.facts["queues " + self.what] = self.facts.get("queues " + self.what, 0) + 1
            if g["n"] != 1:
                return eng.violate(st, "what a queue works with is %s %s" % (
                    "registered" if self.what == "attach" else "given up", times(g["n"])))

    def member(self, eng, st, x):
        """is it the object one of the members refers to"""
        if not is_ptr(x):
            return False
        if rooted(x) and x[1] != THIS:
            return True
        return any(e[0] == x for k, e in st.mem.get(THIS, {}).items() if type(k) is int)


class CrewMonitor(Monitor):
    """objects living as long as the thread they started: registered once when
    started, given up once at the end of the thread"""

    def __init__(self, names, inside):
        self.names = names          # classes having a thread
        self.inside = inside        # is it the function of the thread
        self.data = {"crew": {}}

    def start(self, eng, st):
        g = st.ghost
        g["this"] = ("p", THIS, 0)
        g["given"] = 0
        g["started"] = ()
        g["attached"] = ()

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "THREAD" and not self.inside and is_ptr(a[0]):
            for off, e in st.mem.get(a[0][1], {}).items():
                v = e[0] if type(off) is int else None
                if not is_ptr(v) or type(v[2]) is not int:
                    continue
                for o, c in st.typ.get(v[1], ()):
                    if o == v[2] and described(eng.p, eng.p.canon(c)) in self.names:
                        g["started"] = g["started"] + ((v, described(eng.p, eng.p.canon(c))),)
                        break
        elif kind == "MANAGER" and a[0] == "attach" and is_ptr(a[1]):
            g["attached"] = g["attached"] + (eng.load(st, a[1], 8, "p"),)
        elif kind == "MANAGER" and a[0] == "detach" and a[1] == ("p", THIS, 0):
            g["given"] += 1
        elif kind == "RETURN":
            if self.inside:
                n = g["given"] if type(g["given"]) is int else 2
                self.data["crew"][n] = 1
            for v, c in g["started"]:
                self.data["crew"][(c, min(g["attached"].count(v), 2))] = eng.site(st) if hasattr(eng, "site") else None


# --------------------------------------------------------------- the manager
class ManagerMonitor(Monitor):
    """which objects are kept after a sequence of registrations"""

    def __init__(self, steps, want, lst):
        self.steps = steps
        self.want = want
        self.lst = lst

    def start(self, eng, st):
        st.ghost["this"] = ("p", THIS, 0)

    def event(self, eng, st, kind, *a):
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "RETURN" and not st.conts:
            have = eng.models.segs(eng, st, ("p", THIS, self.lst))
            vals = []
            for e in have or ():
                vals.append(eng.load(st, ("p", e, 0), 8, "p") if e[0] == "E#" else None)
            self.facts["registrations followed"] = self.facts.get("registrations followed", 0) + len(self.steps)
            names = [st.ghost["obj%d" % i] for i in self.want]
            if sorted(map(str, vals)) != sorted(map(str, names)):
                return eng.violate(st, "after %s the objects kept are not %s" % (
                    ", ".join("%s(%s)" % (w, "xy"[i]) for w, i in self.steps),
                    " and ".join("xy"[i] for i in self.want) or "none"))


def thread_execute(eng, st, c, a):
    op = eng.load(st, a[1], 8, "p") if is_ptr(a[1]) else a[1]
    block = eng.load(st, plus(a[1], 8), 8, "p") if is_ptr(a[1]) else 0
    count = eng.load(st, plus(block, 8), 4, "i32") if is_ptr(block) else None
    if type(count) is int:
        eng.store(st, plus(block, 8), count + 1, 4)        # the thread keeps it
    n = st.ghost["kept"] = st.ghost.get("kept", 0) + 1
    st.ghost["kept%d" % n] = op
    st.conts = (("exec", op, "managed"),) + tuple(st.conts)
    return eng.ret(st, c, None)


SCENARIOS = (
    ((("attach", 0),), (0,)),
    ((("attach", 0), ("attach", 1)), (0, 1)),
    ((("attach", 0), ("detach", 0)), ()),
    ((("attach", 0), ("attach", 0), ("detach", 0)), (0,)),
    ((("attach", 0), ("attach", 1), ("detach", 0)), (1,)),
    ((("attach", 1), ("attach", 0), ("detach", 0)), (1,)),
    ((("attach", 0), ("attach", 1), ("attach", 0), ("detach", 0)), (0, 1)),
    ((("attach", 0), ("attach", 0), ("attach", 0), ("detach", 0)), (0, 0)),
    ((("attach", 0), ("attach", 1), ("attach", 0), ("detach", 0), ("detach", 0)), (1,)),
)


def manager_setup(by, steps):
    """one registration after the other on a new manager"""
    def setup(eng, st, f, a):
        out = []
        objs = []
        for i in range(2):
            eng.argname = "obj%d" % i
            x = ("p", ("S#", ("obj", i), 0), 0)
            objs.append(x)
            st.ghost["obj%d" % i] = x
            eng.assume_cmp(st, "ne", x, 0)
        eng.argname = "arg"
        eng.assume_cmp(st, "ne", objs[0], objs[1])
        for n, (what, i) in enumerate(steps):
            g = by[what]
            args = list(eng.entry_args(st, g, a[0]))
            c = eng.p.canon(g.di[2])
            if c >= 0 and eng.p.types[c].tag in (TAG_REF, TAG_RREF):
                ref = ("p", ("S#", ("ref", n), 0), 0)
                cb = ("p", ("S#", ("block", i), 0), 0)
                eng.store(st, ref, objs[i], 8)
                eng.store(st, plus(ref, 8), cb, 8)
                eng.assume_cmp(st, "ne", cb, 0)
                st.ghost["ref%d" % n] = ref
                args[1] = ref
            else:
                args[1] = objs[i]
            out.append(("call", g.name, tuple(args)))
        st.conts = tuple(out)
        return a
    return setup


def plus(p, k):
    return ("p", p[1], p[2] + k)


class P21(Spec):
    id = "P21"
    requires = ("P01",)
    technique = "ownership and escape analysis of closures by abstract interpretation of LLVM IR with typestate automata"
    explanation = (
        "Path sensitive abstract interpretation of all entry functions with an ownership and escape analysis of each operation, "
        "runnable and event handed to queues, pools, groups, timers and containers: what the closure holds is divided by the types "
        "of its members into owning and borrowing references. Each borrowed reference gives rise to an obligation, which is "
        "discharged by an object never destroyed, by ownership captured along, by an untimed wait in the same frame, or by a "
        "destructor which is shown to wait. Typestate automata follow the keep-alive registration of queues and threads, the "
        "flag their destructors wait for and the joining of threads.")
    rules = (
        "an operation handed over borrows nothing but: objects never destroyed, parts of what it owns, locals of a frame which waits "
        "without timeout for the operation, and objects whose destructors wait for their work",
        "an operation completing a borrowed barrier accesses nothing borrowed afterwards",
        "the destructor of an object with work of its own ends only once a member is zero which is nonzero at each release of the lock "
        "during this work but the last; nothing of the object is accessed after that; or it waits for its pool without timeout",
        "an object having a thread starts it after initialising its members and joins it before any of them is destroyed",
        "an attached queue registers itself once; detaching gives it up once, at once if it is known to be empty under its lock, "
        "else by an operation appended to it; no work is scheduled for it afterwards",
        "implementations of queues register what they work with once when created and give up the same once when destroyed; "
        "threads of the pool are registered once when started and given up once when ending",
        "the manager keeps an object as long as it was attached more often than detached",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "drains of a queue do not overlap and none is scheduled for an empty queue (P01, checked along)",
        "references held by user functions are the user's responsibility",
        "~QThreadPool and QThreadPool::waitForDone() return once all runnables have ended (Qt documentation)",
    ]

    def check(self, ctx):
        p = ctx.p
        cl = Closures(p)
        immortal = never_destroyed(ctx)
        for f in entries(ctx, life=True):
            b = captured_references(p, f)
            ctx.job(f, lambda b=b: LifeMonitor(cl, immortal, b), label=f.dem, opaque=BARRIERS)
        for f in self.constructors(ctx):
            ctx.job(f, lambda: LifeMonitor(cl, immortal, {}), label=f.dem, opaque=BARRIERS)
        first = ctx.run()
        quiesce, own, threads = {}, {}, set()
        for r in first:
            for (t, how), (name, site) in r["data"]["quiesce"].items():
                quiesce.setdefault(t, []).append((how, name, site, r["label"]))
            own.update(r["data"]["own"])
            threads.update(r["data"]["threads"])
        for n in own:
            quiesce.setdefault(n, [])
        self.objects(ctx, quiesce, own, first)
        self.threads(ctx, threads)
        self.crew(ctx, threads, first)
        self.queue(ctx)
        self.owners(ctx)
        self.manager(ctx)
        ctx.floor("objects whose work refers to them", len(quiesce), 2)
        ctx.floor("objects having a thread", len(threads), 2)
        if not ctx.violations:
            for what in ("operations handed over", "captures owning what they refer to", "operations waited for",
                         "references to objects never destroyed", "completions", "threads started", "threads joined",
                         "queues registered", "queues given up at once", "queues given up by their last operation",
                         "operations after detaching", "registrations followed", "queues attach", "queues detach"):
                if not ctx.fact(what):
                    raise Broken("no %s observed" % what)

    def constructors(self, ctx):
        p = ctx.p
        out = []
        for f in p.funcs.values():
            if f.ctor and "~" not in f.base and not copyish(ctx, f) and f.cls >= 0 and f.file and \
                    "/repo/src/" in f.file and not f.name.startswith("_GLOBAL") and \
                    any(self.cl_defers(p, t) for n, o, t in p.types[p.canon(f.cls)].members):
                out.append(f)
        return sorted(out, key=lambda f: (f.dem, f.name))

    def cl_defers(self, p, t):
        t = p.canon(t)
        return t >= 0 and "operation" in p.types[t].name and p.types[t].name.startswith("std::shared_ptr<")

    # ------------------------------------------------- destroying an object
    def objects(self, ctx, quiesce, own, first):
        p = ctx.p
        jobs = {}
        for n in sorted(quiesce):
            t = ctx.cls(n)
            ds = self.destructors(ctx, n)
            if not ds:
                for how, name, site, label in quiesce[n]:
                    self.captured(ctx, n, name, site, label)
                continue
            for d in ds:
                ctx.job(d, DestroyMonitor, label=("destroy", n), models=lambda: Models(extra=WAIT_MODELS))
        res = {}
        for r in ctx.run():
            if type(r["label"]) is tuple and r["label"][0] == "destroy":
                res.setdefault(r["label"][1], []).append(r["data"])
        for n, ds in sorted(res.items()):
            away = [q for q in quiesce[n] if q[0] == "away"]
            if all(d["paths"] and d["waits"] == d["paths"] for d in ds):
                ctx.counts["objects waiting for a pool"] = ctx.counts.get("objects waiting for a pool", 0) + 1
                continue
            flags = set(ds[0]["zero"] or ())
            for d in ds[1:]:
                flags &= set(d["zero"] or ())
            t = p.canon(ctx.cls(n).id)
            flags = [(off, size, m) for m, off, size in scalars(p, t) if off in flags]
            if not flags or n not in own:
                for how, name, site, label in quiesce[n]:
                    self.captured(ctx, n, name, site, label)
                if not quiesce[n]:
                    d = self.destructors(ctx, n)[0]
                    ctx.violate("%s keeps an operation which refers to it but does not wait for its end when being destroyed" % n,
                                "%s:%d" % (d.file, d.line), d.dem)
                continue
            private = {(t, m) for off, size, m in flags if not any(
                off in r["data"]["stores"] for r in first if self.public(ctx, t, r))}
            for c in ctors(ctx, n):
                ctx.job(c, lambda flags=flags: WorkMonitor([(o, s) for o, s, m in flags], " and ".join(m for o, s, m in flags)),
                        label="work of " + n,
                        const_extra=private)
            ctx.counts["objects waiting for their work"] = ctx.counts.get("objects waiting for their work", 0) + 1
        ctx.run()
        if not ctx.violations:
            for what in ("operations referring to their owner", "work finished", "lock releases of such work"):
                if not ctx.fact(what):
                    raise Broken("no %s observed" % what)

    def public(self, ctx, t, r):
        """is it a function of the class others may call while its work is active"""
        f = ctx.p.funcs.get(r["fname"])
        return f is not None and f.cls >= 0 and ctx.p.canon(f.cls) == t and f.acc == 3 and not f.ctor and "~" not in f.base

    def captured(self, ctx, n, name, site, label):
        ctx.violate("an operation handed over refers to a %s (%s) which neither lives as long as the operation nor waits for it"
                    % (n, name), site, label)

    def destructors(self, ctx, n):
        short = n.split("<")[0].split("::")[-1]
        fs = [f for f in ctx.methods(n) if f.base == "~" + short and not f.artificial]
        return fs[:1]

    # -------------------------------------------------------------- threads
    def threads(self, ctx, names):
        p = ctx.p
        for n in sorted(names):
            t = p.canon(ctx.cls(n).id)
            offs = [off for m, off, tid in p.types[t].members
                    if p.canon(tid) >= 0 and p.types[p.canon(tid)].name == "std::thread"]
            ds = self.destructors(ctx, n)
            if not ds:
                ctx.violate("%s starts a thread using it but does not join it" % n, None, n)
            for d in ds:
                ctx.job(d, lambda offs=offs: JoinMonitor(offs), label="destroy " + n)
        ctx.run()

    def crew(self, ctx, names, first):
        p = ctx.p
        models = lambda: Models(extra=SEM_MODELS)
        runs, starts = [], []
        for f in entries(ctx, life=True):
            if f.cls >= 0 and p.types[p.canon(f.cls)].name in names and not f.ctor and ctx.address_taken(f.name):
                runs.append(f)
            elif any(r["fname"] == f.name and set(r["data"]["threads"]) & names for r in first):
                starts.append(f)
        for f in runs:
            ctx.job(f, lambda: CrewMonitor(names, True), label=f.dem, models=models)
        for f in starts:
            ctx.job(f, lambda: CrewMonitor(names, False), label=f.dem, models=models)
        kept = {}
        started = {}
        for r in ctx.run():
            if "crew" not in r["data"]:
                continue
            f = p.funcs[r["fname"]]
            for k, v in r["data"]["crew"].items():
                if type(k) is tuple:
                    started.setdefault(k[0], []).append((k[1], v, r["label"]))
                else:
                    kept.setdefault(p.types[p.canon(f.cls)].name, {})[k] = f
        for n in sorted(set(kept) | set(started)):
            ends = kept.get(n, {})
            begins = started.get(n, [])
            if not any(ends) and not any(b[0] for b in begins):
                continue        # owned by somebody else
            ctx.counts["objects living as long as their thread"] = ctx.counts.get("objects living as long as their thread", 0) + 1
            for k, f in ends.items():
                if k != 1:
                    ctx.violate("%s is given up %s at the end of its thread" % (n, times(k)), "%s:%d" % (f.file, f.line), f.dem)
            for k, site, label in begins:
                if k != 1:
                    ctx.violate("%s is kept alive %s when its thread was started" % (n, times(k)), site, label)

    # ---------------------------------------------------------- keep alive
    def queue(self, ctx):
        p = ctx.p
        lst = member_offsets(p, ctx.cls(OPQ).id, is_op_container)
        if len(lst) != 1:
            raise Broken("expected one list of operations in the operation queue, found %d" % len(lst))
        lst = lst[0][0]
        by = {f.base: f for f in ctx.methods(OPQ) if f.acc == 3}
        const = const_between(ctx, OPQ, [by["attach"], by["detach"]])
        models = lambda: Models(extra=SEM_MODELS)
        for c in ctors(ctx, OPQ):
            for what, chain in (("attach", ("attach",)), ("detach", ("attach", "detach")),
                                ("async", ("attach", "detach", "async"))):
                ctx.job(c, lambda what=what, k=len(chain): KeepMonitor(k, what, lst), label=OPQ + "::" + what,
                        setup=chain_setup([by[x] for x in chain]), const_extra=const, models=models)
        ctx.run()

    def owners(self, ctx):
        """implementations of queues working with an operation queue or a pool"""
        p = ctx.p
        refs = ctx.refs()
        n = 0
        models = dict(SEM_MODELS)
        models[OPQ + "::attach"] = queue_model("attach")
        models[OPQ + "::detach"] = queue_model("detach")
        used = {f.name: f for k in ("attach", "detach") for c in (OPQ, MANAGER) for f in ctx.methods(c) if f.base == k}
        classes = set()
        for name in used:
            for w in refs.get(name, ()):
                f = p.funcs.get(w)
                if f is not None and f.cls >= 0:
                    c = p.canon(f.cls)
                    if p.types[c].name not in (OPQ, MANAGER):
                        classes.add(c)
        for c in sorted(classes):
            cn = p.types[c].name
            if not any(p.types[b].name == "xdispatch::iqueue_impl" for b, o in p.bases_of(c)):
                continue
            n += 1
            for f in ctors(ctx, cn):
                ctx.job(f, lambda: OwnerMonitor("attach"), label=f.dem, models=lambda: Models(extra=models))
            ds = self.destructors(ctx, cn)
            if not ds:
                ctx.violate("%s registers what it works with but never gives it back" % cn, None, cn)
            for f in ds:
                ctx.job(f, lambda: OwnerMonitor("detach"), label=f.dem, models=lambda: Models(extra=models))
        ctx.floor("implementations of queues registering what they work with", n, 2)
        ctx.run()

    # -------------------------------------------------------------- manager
    def manager(self, ctx):
        p = ctx.p
        t = ctx.cls(MANAGER)
        lst = member_offsets(p, t.id, lambda n: n.startswith(("std::vector<", "std::list<", "std::__cxx11::list<", "std::deque<")))
        if len(lst) != 1:
            raise Broken("expected one container in the manager of queues, found %d" % len(lst))
        by = {f.base: f for f in ctx.methods(MANAGER)}
        models = {}
        for m in ("thread", "manual_thread"):
            for f in ctx.methods("xdispatch::naive::" + m):
                if f.base == "execute":
                    models["xdispatch::naive::%s::execute" % m] = thread_execute
        for steps, want in SCENARIOS:
            for c in ctors(ctx, MANAGER):
                ctx.job(c, lambda steps=steps, want=want: ManagerMonitor(steps, want, lst[0][0]),
                        label="manager " + " ".join("%s(%s)" % (w, "xy"[i]) for w, i in steps),
                        setup=manager_setup(by, steps), sequential=True,
                        models=lambda: Models(extra=models), keep_elements=lambda eng, st, q: True)
        ctx.run()

