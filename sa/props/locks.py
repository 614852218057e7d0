"""Locks: what they protect, their order and what happens while holding them."""
from props import Spec
from props.common import *
from props.entries import *


def own_class(eng, st, obj, off):
    """(class, member) of the library a location belongs to"""
    if type(off) is not int:
        return None
    c, rel = eng.typeat(st, obj, off)
    if c < 0 or type(rel) is not int or rel < 0:
        return None
    p = eng.p
    path, t, const, rest = p.leaf(p.canon(c), rel)
    found = None
    for n, owner in path:
        if n and p.types[owner].name.startswith(("xdispatch::", "waitable")):
            found = (p.types[owner].name, n, owner)
    return found


def lock_name(eng, st, m):
    o, off = m
    if o[0] == "G#":
        oc = own_class(eng, st, o, off)
        return oc[0] + "::" + oc[1] if oc else "global " + o[1]
    oc = own_class(eng, st, o, off)
    if oc:
        return oc[0] + "::" + oc[1]
    return None


SYNC = ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex",
        "std::condition_variable", "std::once_flag", "std::recursive_timed_mutex")
MUTEX = ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex",
         "std::shared_timed_mutex", "std::recursive_timed_mutex", "QMutex", "QRecursiveMutex")
READS = {"CREAD", "CITER", "CITEREND", "CBEGIN", "CINDEX", "CFIND"}
NOCONT = {"CVWAIT", "CVWOKEN", "CONT", "CATCH", "CAS", "CALL"}


def synchronous(eng, st):
    """the handler being invoked was connected in the mode delivering
    synchronously from within the emission"""
    g = st.ghost.get("mode")
    k = eng_sync_value(eng.p)
    if g is None or k is None:
        return False
    return any(eng.cmp_truth(st, "eq", v, k) is True for v in g)


def eng_sync_value(p):
    t = p.by_name.get("xdispatch::notification_mode")
    if t is None:
        return None
    for e in t.enumerators:
        if "synchronous" in e[0]:
            return e[1]
    return None


class LockMonitor(Monitor):
    """records memory accesses with the locks held, the order in which locks
    are taken and what happens while they are held"""
    wants_mem = True

    def __init__(self):
        self.data = {"acc": {}, "edges": {}, "acq": {}, "block": {}, "vcalls": {}, "under": {}, "glob": {},
                     "given": {}}

    def start(self, eng, st):
        st.ghost["mode"] = ()
        st.ghost["init"] = 0
        st.ghost["ran"] = None      # operation executed by this thread

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def event(self, eng, st, kind, *a):
        D = self.data
        if kind in ("LOAD", "STORE"):
            if kind == "LOAD":
                oc = own_class(eng, st, a[0][1], a[0][2])
                if oc and oc[1] == "m_mode" or oc and self.is_mode(eng, st, a[0]):
                    if a[1] not in st.ghost["mode"]:
                        st.ghost["mode"] = (st.ghost["mode"] + (a[1],))[-2:]
            self.access(eng, st, a[0], kind == "STORE")
        elif kind[0] == "C" and a and is_ptr(a[0]) and kind not in NOCONT:
            self.access(eng, st, a[0], kind not in READS)
        elif kind == "EMPTYACCESS":
            self.access(eng, st, a[0], False)
        elif kind == "GUARD":
            st.ghost["init"] += 1
        elif kind == "GUARDEND":
            st.ghost["init"] = max(0, st.ghost["init"] - 1)
        elif kind == "PRELOCK":
            self.lock(eng, st, a[0])
        elif kind in ("CVWAIT", "JOIN", "SLEEP"):
            self.blocking(eng, st, kind, a)
        elif kind == "EXT" and a[0] in BLOCKING:
            self.blocking(eng, st, a[0], a)
        elif kind == "VCALL":
            key = (a[0], a[1])
            D["vcalls"].setdefault(key, eng.site(st))
            self.count("virtual calls")
            for l in st.locks:
                n = lock_name(eng, st, l)
                D["under"].setdefault((n, key), (eng.site(st), eng.entry))
        elif kind in ("EXEC", "UCALL"):
            self.user(eng, st, kind, a)
            if kind == "EXEC":
                st.ghost["ran"] = a[0]
        elif kind == "RELEASE" and st.ghost["ran"] is not None and a[0] == st.ghost["ran"]:
            held = tuple(sorted(str(lock_name(eng, st, l)) for l in st.locks))
            self.count("operations given up after their execution")
            if held and not self.others(eng, st, a[0]):
                D["given"].setdefault(held, (eng.site(st), eng.entry))

    def others(self, eng, st, op):
        """is there another reference held by this thread"""
        n = 0
        for o, m in st.mem.items():
            if o[0] == "A#":
                n += sum(1 for k, v in m.items() if type(k) is int and v[0] == op and
                         is_ptr(m.get(k + 8, (None, 0))[0]))
        return n > 1

    def is_mode(self, eng, st, ptr):
        if type(ptr[2]) is not int:
            return False
        c, rel = eng.typeat(st, ptr[1], ptr[2])
        if c < 0 or type(rel) is not int:
            return False
        path, t, const, rest = eng.p.leaf(eng.p.canon(c), rel)
        return t >= 0 and eng.p.types[t].name == "xdispatch::notification_mode"

    def user(self, eng, st, kind, a):
        pass

    def access(self, eng, st, ptr, write):
        o, off = ptr[1], ptr[2]
        while o[0] == "E#" and type(o[1]) is tuple and o[1]:
            if not (type(o[1][0]) is str and o[1][0].endswith("#")):
                break
            o, off = o[1], o[2]
        if not eng.is_shared(st, o) or type(off) is not int:
            return
        oc = own_class(eng, st, o, off)
        if oc is None:
            if o[0] == "G#" and write and not o[1].startswith(("_ZGV", "_ZTV", "_ZTI", "_ZTS", "__")):
                self.data["glob"].setdefault((o[1], bool(st.locks) or st.ghost["init"] > 0), (eng.site(st), eng.entry))
            return
        held = frozenset(n for n in (lock_name(eng, st, l) for l in st.locks if l[0] == o) if n)
        key = (oc[0], oc[1], oc[2], write, held)
        self.data["acc"].setdefault(key, (eng.site(st), eng.entry))
        self.count("accesses")

    def lock(self, eng, st, m):
        n = lock_name(eng, st, (m[1], m[2]))
        self.count("lock acquisitions")
        if n is None:
            return
        D = self.data
        D["acq"].setdefault(n, eng.site(st))
        for l in st.locks:
            h = lock_name(eng, st, l)
            if h is not None:
                same = l == (m[1], m[2])
                D["edges"].setdefault((h, n, same), (eng.site(st), eng.entry))

    def blocking(self, eng, st, kind, a):
        own = (a[1][1], a[1][2]) if kind == "CVWAIT" else None
        others = tuple(sorted(str(lock_name(eng, st, l)) for l in st.locks if l != own))
        self.count("blocking calls")
        self.data["block"].setdefault((kind, others), (eng.site(st), eng.entry))


BLOCKING = {"select", "poll", "ppoll", "pselect", "usleep", "nanosleep", "sleep", "read", "recv", "accept"}


def merged(ctx, what):
    out = {}
    for r in ctx.results:
        d = r.get("data")
        if d:
            for k, v in d[what].items():
                out.setdefault(k, v)
    return out


def explore(ctx, monitor=LockMonitor):
    es = entries(ctx)
    ctx.floor("entry functions", len(es), 100)
    for f in es:
        ctx.job(f, monitor)
    ctx.run()


def given_up(ctx):
    """the destruction of an operation may use the object executing it"""
    for held, (site, entry) in merged(ctx, "given").items():
        ctx.violate("an operation executed is given up (and thereby destroyed) while holding %s" % ", ".join(held),
                    site, entry)


class UserCodeMonitor(LockMonitor):
    wants_mem = True

    def access(self, eng, st, ptr, write):
        pass

    def user(self, eng, st, kind, a):
        self.count("calls of user code")
        if not st.locks:
            return
        held = [lock_name(eng, st, l) for l in st.locks]
        if all(h and h.startswith("xdispatch::signal_p::") for h in held) and synchronous(eng, st):
            self.count("calls of user code within a synchronous emission")
            return
        eng.violate(st, "user code is executed while holding %s" % ", ".join(str(h) for h in held))


class P03(Spec):
    id = "P03"
    explanation = (
        "Every function of the library which is reachable from outside (public, exported or called by "
        "address) is explored path sensitively with everything it calls inlined; at each point where an "
        "operation, functor or handler of the user is invoked the set of held mutexes has to be empty.")
    rules = (
        "at each execution of an operation, functor or notifier: no mutex of the library is held",
        "exception: handlers connected in the internal mode for synchronous chaining of signals",
        "an operation is given up after its execution by its executor with no mutex of the library held",
    )
    assumptions = BASE_ASSUMPTIONS

    def check(self, ctx):
        explore(ctx, UserCodeMonitor)
        given_up(ctx)
        if not ctx.violations:
            if ctx.fact("calls of user code") < 10:
                raise Broken("user code is not called anymore")


# members which belong to one thread at a time by design
CONFINED = {
    "xdispatch::connection": "handle owned by the connecting component",
    "xdispatch::scoped_connection": "handle owned by the connecting component",
    "xdispatch::naive::operation_queue_manager": "only used by operations on its own thread",
    "xdispatch::naive::delayed_operation": "written before the timer starts and by the one expiry",
    "xdispatch::qt5::ObjectConnectionManager": "modified under the lock of its registry",
}


class P22(Spec):
    id = "P22"
    explanation = (
        "Lockset analysis: for each class of the library owning a mutex all accesses to its members by any "
        "function reachable from outside are collected together with the mutexes of the same object held at "
        "that point on each path. Members modified after construction need one common mutex.")
    rules = (
        "members of classes with a mutex which are modified after construction, are not atomic and not "
        "synchronisation objects are accessed under one common mutex of the object",
        "members of other classes are not modified after construction unless they are atomic "
        "or owned by one thread (listed with the reason)",
        "no global variable which is not thread local or atomic is modified without lock after its initialisation",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "constructors and destructors have exclusive access to their object",
    ]

    def check(self, ctx):
        explore(ctx)
        p = ctx.p
        acc = merged(ctx, "acc")
        guarded = {}
        for t in p.types:
            if t.tag in (TAG_CLASS, TAG_STRUCT) and not t.fwd and p.canon(t.id) == t.id and \
                    t.name.startswith(("xdispatch::", "waitable")):
                m = [n for n, o, ty in t.members if p.canon(ty) >= 0 and p.types[p.canon(ty)].name in MUTEX]
                if m:
                    guarded[t.name] = m
        per = {}
        for (cls, member, owner, write, held), site in acc.items():
            per.setdefault((cls, member, owner), []).append((write, held, site))
        ctx.floor("classes with a mutex", len(guarded), 5)
        members = 0
        for (cls, member, owner), uses in sorted(per.items(), key=str):
            tid = next((ty for n, o, ty in p.types[owner].members if n == member), -1)
            c = p.canon(tid)
            name = p.types[c].name if c >= 0 else ""
            if member.startswith("_vptr") or name in SYNC or name in MUTEX or p.is_const(tid):
                continue
            if name.startswith("std::atomic") or is_atomic_type(p, c):
                continue
            if c >= 0 and any(p.types[b].name in guarded for b, o in p.bases_of(c)):
                continue    # an object taking care of itself
            if ctx.immutable(owner, member) or not any(w for w, h, s in uses):
                continue
            members += 1
            if cls in guarded:
                common = frozenset.intersection(*[h for w, h, s in uses])
                if not common:
                    votes = {}
                    for w, h, s in uses:
                        for x in h:
                            votes[x] = votes.get(x, 0) + 1
                    best = max(votes, key=votes.get) if votes else None
                    for w, h, (site, entry) in uses:
                        if best is None or best not in h:
                            ctx.violate("%s::%s is %s without the lock protecting it (%s)" % (
                                cls, member, "written" if w else "read", best or "none"), site, entry)
            elif not any(cls == c2 or cls.startswith(c2 + "::") for c2 in CONFINED) and \
                    not cls.startswith("xdispatch::signal_barrier<"):
                for w, h, (site, entry) in uses:
                    if w:
                        ctx.violate("%s::%s is modified without synchronisation" % (cls, member), site, entry)
        ctx.counts["members analysed"] = members
        for (g, locked), (site, entry) in merged(ctx, "glob").items():
            x = p.globals.get(g)
            if locked or x is None or x.get("tls"):
                continue
            ctx.violate("global %s is modified without synchronisation" % g, site, entry)
        ctx.counts["classes"] = sorted(guarded)
        if members < 12 and not ctx.violations:
            raise Broken("only %d protected members found" % members)


def is_atomic_type(p, c):
    if c < 0:
        return False
    if p.types[c].name.startswith(("std::atomic", "std::__atomic_base")):
        return True
    return False


class P23(Spec):
    id = "P23"
    explanation = (
        "Lock order analysis: for each function reachable from outside the pairs (lock held, lock acquired) are "
        "collected on all paths, including those acquired by the implementations of virtual functions called "
        "under a lock. The resulting graph over (class, mutex) has to be free of cycles and nothing which "
        "blocks may be called with a lock held.")
    rules = (
        "no mutex is acquired again by the thread holding it",
        "the order in which mutexes are acquired is free of cycles",
        "no waiting, sleeping or joining while holding a mutex (other than the one released by the wait)",
        "an operation executed is not given up with a mutex held, its destruction may acquire it again",
    )
    assumptions = BASE_ASSUMPTIONS

    def check(self, ctx):
        explore(ctx)
        given_up(ctx)
        p = ctx.p
        edges = merged(ctx, "edges")
        graph = {}
        for (h, n, same), (site, entry) in edges.items():
            if same:
                ctx.violate("%s is acquired by the thread holding it" % n, site, entry)
                continue
            graph.setdefault(h, {}).setdefault(n, (site, entry))
        # virtual functions called under a lock
        byf = {}
        for r in ctx.results:
            d = r.get("data")
            if d:
                x = byf.setdefault(r["fname"], {"acq": {}, "v": set(), "block": {}})
                x["acq"].update(d["acq"])
                x["v"].update(d["vcalls"])
                x["block"].update({k: v for k, v in d["block"].items()})
        memo = {}

        def effects(key, depth=0):
            if key in memo:
                return memo[key]
            memo[key] = ({}, {})
            acq, blk = {}, {}
            cls, meth = key
            if cls in p.by_name and cls.startswith("xdispatch::"):
                try:
                    impls = ctx.overrides(cls, meth)
                except Broken:
                    impls = []
                for t, f in impls:
                    e = byf.get(f.name)
                    if e is None:
                        continue
                    acq.update(e["acq"])
                    blk.update(e["block"])
                    if depth < 6:
                        for k in e["v"]:
                            a2, b2 = effects(k, depth + 1)
                            acq.update(a2)
                            blk.update(b2)
            memo[key] = (acq, blk)
            return memo[key]
        under = merged(ctx, "under")
        for (h, key), (site, entry) in under.items():
            acq, blk = effects(key)
            for n in acq:
                if n == h:
                    # the same class, possibly another object
                    graph.setdefault(h, {}).setdefault(n, (site, entry))
                else:
                    graph.setdefault(h, {}).setdefault(n, (site, entry))
            for (kind, others), where in blk.items():
                ctx.violate("%s::%s may block (%s) and is called while holding %s" % (
                    key[0], key[1], kind, h), site, entry)
        for (kind, others), (site, entry) in merged(ctx, "block").items():
            if others:
                ctx.violate("%s while holding %s" % (kind, ", ".join(others)), site, entry)
        ctx.counts["lock order"] = sorted("%s -> %s" % (a, b) for a in graph for b in graph[a])
        ctx.counts["locks"] = sorted(merged(ctx, "acq"))
        ctx.counts["virtual calls under a lock"] = sorted("%s: %s::%s" % (h, k[0], k[1]) for h, k in under)
        ctx.floor("mutexes acquired", len(merged(ctx, "acq")), 6)
        for cyc in cycles(graph):
            a, b = cyc[-1], cyc[0]
            site, entry = graph[a][b]
            ctx.violate("cycle in the order of locks: %s" % " -> ".join(list(cyc) + [cyc[0]]), site, entry)


def cycles(graph):
    out = []
    state = {}

    def visit(n, path):
        state[n] = 1
        for m in sorted(graph.get(n, {})):
            if m == n:
                out.append([n])
            elif state.get(m) == 1:
                out.append(path[path.index(m):])
            elif m not in state:
                visit(m, path + [m])
        state[n] = 2
    for n in sorted(graph):
        if n not in state:
            visit(n, [n])
    return out
