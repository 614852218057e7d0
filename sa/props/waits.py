"""P24: waits on condition variables look at their condition again and the
changes of it are notified."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.entries import callers, same_class
from props.common import BASE_ASSUMPTIONS, THIS, ctors, member_offsets, span

CV = ("std::condition_variable", "std::condition_variable_any")
MUTEXES = ("std::mutex", "std::recursive_mutex", "std::timed_mutex")


class SpuriousModels(Models):
    """a wait ends without any reason and without a timeout"""

    def m_cvwait_until(self, eng, st, c, a):
        self.cvwait(eng, st, a[0], a[1], True)
        if st.dead:
            return False
        return eng.ret(st, c, 0)


class WaitMonitor(Monitor):
    """nothing else happens: whoever is woken has to wait again"""
    wants_mem = True
    wants_local = True

    def __init__(self, skip, f):
        self.skip = skip
        self.f = f
        self.data = {}

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["cv"] = None
        g["woken"] = 0
        g["reads"] = ()
        g["regs"] = ()          # counters incremented before the condition was read
        g["ran"] = False

    def here(self, a):
        return is_ptr(a) and a[1] == THIS and type(a[2]) is int

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
            return
        if kind == "CVWAIT":
            if not self.here(a[0]) or not self.here(a[1]):
                return
            cv = (a[0][2], a[1][2])
            if (a[1][1], a[1][2]) not in [l[:2] for l in st.locks]:
                return eng.violate(st, "waiting for a condition without holding its lock")
            if not g["woken"]:
                g["cv"] = cv
                g["reads"] = ()
                return
            if cv != g["cv"]:
                return eng.violate(st, "a wait ends without its condition having changed")
            if not g["reads"]:
                return eng.violate(st, "a wait never looks at the condition it waits for")
            box = []
            for off, lst in sorted(set(g["reads"])):
                if lst:
                    n = eng.models.size(eng, st, ("p", THIS, off))
                    box.append((off, 1) + span(eng, st, n))
                else:
                    v, b = st.mem.get(THIS, {}).get(off, (None, 0))[:2]
                    box.append((off, 0) + (span(eng, st, v) if v is not None else (-INF, INF)))
            self.data.setdefault(cv, set()).add((tuple(box), g["regs"]))
            self.count("waits which go on when nothing changed")
            st.dead = True
            return
        if kind == "CVWOKEN":
            if g["cv"] is not None:
                g["woken"] = 1
            return
        if kind == "RMW" and self.here(a[0]) and not g["woken"] and a[1] in ("add", "Add", "fetch_add", "inc"):
            if a[5] == "seq_cst":
                g["regs"] = tuple(sorted(set(g["regs"]) | {a[0][2]}))
        if kind == "EXEC" and not g["woken"]:
            # what is waited for later on is looked at with other initial states
            if g["ran"]:
                st.dead = True
            g["ran"] = True
            return
        if g["woken"]:
            if kind in ("LOAD", "ALOAD") and self.here(a[0]) and a[0][2] not in self.skip:
                g["reads"] += ((a[0][2], 0),)
            elif kind in ("CREAD", "CBEGIN", "CITER", "CITEREND", "CINDEX", "EMPTYACCESS") and self.here(a[0]):
                g["reads"] += ((a[0][2], 1),)
            elif kind in ("RETURN", "EXEC", "UCALL", "CPOP", "CERASE", "CSWAP", "CINSERT"):
                return eng.violate(st, "a wait ends without its condition having changed")


class ChangeMonitor(Monitor):
    """changes of what others wait for"""
    wants_mem = True

    def __init__(self, waits, f):
        self.waits = waits      # (cv, mutex) -> {(box, registrations)}
        self.f = f
        self.offs = {}
        for cv, boxes in waits.items():
            for box, regs in boxes:
                for x in box:
                    self.offs.setdefault((x[0], x[1]), set()).add(cv)

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        st.ghost["pend"] = ()       # (cv, fenced, excused)

    def here(self, a):
        return is_ptr(a) and a[1] == THIS and type(a[2]) is int

    def holds(self, st, m):
        return any(o == THIS and off == m for o, off, *_ in st.locks)

    def current(self, eng, st, off, lst):
        if lst:
            return span(eng, st, eng.models.size(eng, st, ("p", THIS, off)))
        e = st.mem.get(THIS, {}).get(off)
        return span(eng, st, e[0]) if e is not None and not is_ptr(e[0]) else (-INF, INF)

    def change(self, eng, st, off, lst, old, new):
        """old and new are terms or ranges"""
        g = st.ghost
        if (off, lst) not in self.offs:
            return
        for cv in sorted(self.offs[(off, lst)]):
            if (cv[0], cv[1]) in g.get("noted", ()) and self.holds(st, cv[1]):
                self.count("changes notified")
                continue
            if self.wakes(eng, st, cv, off, lst, old, new):
                g["pend"] = tuple(p for p in g["pend"] if p[0] != cv) + \
                    ((cv, 1 if self.holds(st, cv[1]) else 0, (off, lst, old, new)),)
                self.count("changes others may wait for")

    @staticmethod
    def range(eng, st, v):
        if v is None:
            return (-INF, INF)
        if type(v) is tuple and len(v) == 2 and v[0] == "range":
            return v[1]
        if type(v) is tuple and len(v) == 3 and v[0] == "size":
            lo, hi = span(eng, st, v[1])
            # a size is known not to be a certain value
            while lo < hi and eng.cmp_truth(st, "ne", v[1], lo) is True and lo < 8:
                lo += 1
            return (max(0, lo + v[2]), max(0, hi + v[2]))
        return span(eng, st, v)

    def wakes(self, eng, st, cv, off, lst, old, new):
        old, new = self.range(eng, st, old), self.range(eng, st, new)
        for box, regs in self.waits[cv]:
            nb = []
            for o, l, lo, hi in box:
                if (o, l) == (off, lst):
                    have = old
                elif self.holds(st, cv[1]):
                    have = self.current(eng, st, o, l)
                else:
                    have = (-INF, INF)
                x, y = max(lo, have[0]), min(hi, have[1])
                if x > y:
                    break           # nobody waits in that state
                nb.append((o, l) + (new if (o, l) == (off, lst) else (x, y)))
            else:
                if not any(self.inside(nb, b) for b, r in self.waits[cv]):
                    return True
        return False

    def size(self, eng, st, x, d=0):
        return ("size", eng.models.size(eng, st, x), d)

    def value(self, eng, st, off):
        e = st.mem.get(THIS, {}).get(off)
        return e[0] if e is not None and not is_ptr(e[0]) else None

    @staticmethod
    def inside(nb, box):
        d = {(o, l): (lo, hi) for o, l, lo, hi in nb}
        for o, l, lo, hi in box:
            have = d.get((o, l), (-INF, INF))
            if have[0] < lo or have[1] > hi:
                return False
        return True

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
            return
        if kind == "CVWAIT":
            g["noted"] = ()
        if kind == "STORE" and self.here(a[0]):
            self.change(eng, st, a[0][2], 0, self.value(eng, st, a[0][2]), a[1])
        elif kind == "ASTORE" and self.here(a[0]):
            self.change(eng, st, a[0][2], 0, None, a[1])
        elif kind == "RMW" and self.here(a[0]):
            self.change(eng, st, a[0][2], 0, a[3], a[4])
        elif kind == "CAS" and self.here(a[0]) and a[3] is not False and a[3] != 0:
            self.change(eng, st, a[0][2], 0, a[1], a[2])
        elif kind == "CINSERT" and self.here(a[0]):
            self.change(eng, st, a[0][2], 1, self.size(eng, st, a[0], -1), self.size(eng, st, a[0]))
        elif kind in ("CPOP", "CERASE") and self.here(a[0]):
            self.change(eng, st, a[0][2], 1, self.size(eng, st, a[0], 1), self.size(eng, st, a[0]))
        elif kind in ("CREMOVED", "CERASERANGE", "CCHANGE") and self.here(a[0]):
            o = self.current(eng, st, a[0][2], 1)
            self.change(eng, st, a[0][2], 1, self.size(eng, st, a[0]), ("range", (0, o[1])))
        elif kind == "CCLEAR" and self.here(a[0]):
            self.change(eng, st, a[0][2], 1, self.size(eng, st, a[0]), 0)
        elif kind in ("CSWAP", "CMOVE", "CSPLICE", "CCOPY"):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if not self.here(x) or kind == "CCOPY" and x == a[1]:
                    continue
                old = ("range", (0, INF))
                if kind == "CSWAP" or kind == "CMOVE" and x == a[1]:
                    old = self.size(eng, st, y)
                self.change(eng, st, x[2], 1, old, self.size(eng, st, x))
        elif kind == "LOCK" and self.here(a[0]):
            g["pend"] = tuple((cv, 1 if cv[1] == a[0][2] else f, c) for cv, f, c in g["pend"])
        elif kind == "ALOAD" and self.here(a[0]) and g["pend"] and a[2] == "seq_cst":
            # those waiting announce it before looking at the condition
            for cv, f, c in g["pend"]:
                if all(a[0][2] in regs for b, regs in self.waits[cv]) and \
                        eng.cmp_truth(st, "eq", a[1], 0) is not False:
                    g["reg"] = a[1]
        elif kind == "UNLOCK" and self.here(a[0]):
            g["noted"] = tuple(x for x in g.get("noted", ()) if x[1] != a[0][2])
        elif kind == "NOTIFY" and self.here(a[0]):
            # (those waiting cannot look before the lock is released)
            g["noted"] = g.get("noted", ()) + tuple((cv[0], cv[1]) for cv in self.waits if cv[0] == a[0][2] and
                                                    (cv[0], cv[1]) not in g.get("noted", ()) and self.holds(st, cv[1]))
            for cv, f, c in g["pend"]:
                if cv[0] == a[0][2]:
                    if not f and not self.holds(st, cv[1]):
                        return eng.violate(st, "a notification may fall between the test of a condition and waiting "
                                               "for it")
                    self.count("changes notified")
            g["pend"] = tuple(p for p in g["pend"] if p[0][0] != a[0][2])
        elif kind in ("RETURN", "CVWAIT") and g["pend"]:
            g["pend"] = tuple(p for p in g["pend"] if self.wakes(eng, st, p[0], *p[2]))
            if not g["pend"]:
                return
            r = g.get("reg")
            if r is not None and (eng.cmp_truth(st, "eq", r, 0) is True or eng.cmp_truth(st, "sle", r, 0) is True):
                g["pend"] = ()
                self.count("changes nobody waited for")
                return
            return eng.violate(st, "a change of a condition others wait for is not notified")


class P24(Spec):
    id = "P24"
    explanation = (
        "Abstract interpretation of all member functions of every class owning a condition variable. First each "
        "waiting function with nothing else happening: woken without a reason it has to arrive at the same wait "
        "again; what it reads meanwhile is its condition, and the values it has then are the states others wait in. "
        "Then all functions with interference: a change leading from one of these states to another one needs a "
        "notification.")
    rules = (
        "the lock is held when starting to wait",
        "a wait which is woken while nothing changed waits again, nothing is executed, taken or returned before; it "
        "reads some shared state to decide this",
        "a store, atomic update or change of a container which may end one of the waiting states is followed by a "
        "notification of that condition variable before the function returns or waits",
        "the lock is held at the change, at the notification or in between; without notification the function has "
        "seen, sequentially consistent and after the change, that nobody registered as waiting",
    )
    assumptions = BASE_ASSUMPTIONS + ["member functions are analysed one by one, the state is only reachable by them"]
    requires = ("P14", "P15", "P16")

    def check(self, ctx):
        p = ctx.p
        classes = []
        for t in p.types:
            if not t.members or not t.name.startswith(("xdispatch::", "waitable")) or p.canon(t.id) != t.id:
                continue
            if any(p.canon(tid) >= 0 and p.types[p.canon(tid)].name in CV for n, off, tid in t.members):
                classes.append(t)
        ctx.floor("classes owning a condition variable", len(classes), 3)
        covered = set()
        per = []
        for t in classes:
            skip = set()
            for off, n in member_offsets(p, t.id, lambda n: n in CV + MUTEXES):
                skip |= set(range(off, off + 64)) & member_span(p, t, off)
            fs = [f for f in ctx.methods(t.name) if not f.ctor and not f.base.startswith("~") and f.blocks]
            per.append((t, skip, fs))
            for f in fs:
                ctx.job(f, lambda skip=skip, f=f: WaitMonitor(skip, f), models=SpuriousModels, sequential=True,
                        label=f.dem + " (woken without reason)")
        res = ctx.run()
        k = 0
        waits = {}
        for t, skip, fs in per:
            w = {}
            for f in fs:
                for cv, boxes in (res[k]["data"] or {}).items():
                    w.setdefault(cv, set()).update(boxes)
                covered |= set(res[k]["functions"])
                k += 1
            waits[t.name] = w
            for cv, boxes in w.items():
                ctx.samples.append("%s: waiting at %s while %s" % (t.name, p.leaf(t.id, cv[0])[0][0][0], "; or ".join(
                    ", ".join("%s%s in [%s, %s]" % (
                        p.leaf(t.id, o)[0][0][0], ".size()" if l else "",
                        "-inf" if lo <= -INF else lo, "inf" if hi >= INF else hi) for o, l, lo, hi in b)
                    for b, r in sorted(boxes)[:4])))
        if ctx.violations:
            return
        for t, skip, fs in per:
            for f in fs:
                if internal_helper(ctx, f):
                    continue
                ctx.job(f, lambda t=t, f=f: ChangeMonitor(waits[t.name], f), label=f.dem + " (changes)")
        ctx.run()
        for what in ("waits which go on when nothing changed", "changes others may wait for", "changes notified"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)
        for t, skip, fs in per:
            if not waits[t.name]:
                raise Broken("no wait of %s observed" % t.name)


def internal_helper(ctx, f):
    """private, so that what it does is seen from those calling it"""
    if f.acc == 3 or ctx.address_taken(f.name):
        return False
    who = callers(ctx, f)
    return bool(who) and "@" not in who and all(same_class(ctx.p, ctx.p.funcs[w], f) for w in who)


def member_span(p, t, off):
    nxt = min([o for n, o, tid in t.members if o > off] + [off + 64])
    return set(range(off, nxt))
