"""Barriers, semaphore and cancelable: the lock free protocols."""
from props import Spec
from props.common import *

BARRIER = "xdispatch::lightweight_barrier"
BARRIER_OP = "xdispatch::barrier_operation"
SEMAPHORE = "xdispatch::naive::semaphore"
CANCELABLE = "xdispatch::cancelable"

ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")
MAXMS = (1 << 63) - 1


def false_possible(eng, st, v):
    return eng.cmp_truth(st, "ne", v, 0) is not True


def true_possible(eng, st, v):
    return eng.cmp_truth(st, "eq", v, 0) is not True


class BarrierMonitor(Monitor):
    """owner: none -> waiter | completed, both final. A waiter carries a done
    flag guarded by its mutex."""
    wants_mem = True

    def __init__(self, spec, f, owner, w, done, kind):
        self.spec = spec
        self.f = f
        self.owner = owner        # offset of the atomic within the object
        self.w = w
        self.flag = done
        self.data = {}
        self.kind = kind          # wait, complete, test, ctor, dtor, other

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["obs"] = ()
        g["pub"] = ()
        g["read"] = None
        g["notes"] = ()
        if self.kind == "dtor":
            # nobody else uses the object anymore
            pass

    # --------------------------------------------------------------- helpers
    def mine(self, ptr):
        return is_ptr(ptr) and ptr[1] == THIS and ptr[2] == self.owner

    def is_c(self, v):
        return is_ptr(v) and v[1][0] == "G#"

    def completed(self, st):
        return any(self.is_c(v) for v in st.ghost["obs"])

    def waiter(self, st, o):
        """is the object a waiter obtained from or put into the barrier"""
        return any(is_ptr(v) and v[1] == o and v[2] == 0 for v in st.ghost["obs"]) or o in st.ghost["pub"]

    def observe(self, eng, st, v, order):
        g = st.ghost
        g["obs"] = tuple(sorted(set(g["obs"]) | {v}, key=repr))
        self.count("observations of the state")
        if order not in ACQ and eng.nullness(st, v) is not True:
            g["notes"] = g["notes"] + ("relaxed",)
        if self.is_c(v):
            self.data.setdefault("completed", set()).add(v)

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "NULLDEREF":
            return eng.violate(st, "a barrier dereferences a null pointer")
        if kind == "ALOAD" and self.mine(a[0]):
            return self.observe(eng, st, a[1], a[2])
        if kind in ("ASTORE", "RMW") and self.mine(a[0]):
            if self.kind in ("ctor", "dtor"):
                return
            return eng.violate(st, "the state of a barrier is overwritten without comparing it before")
        if kind == "CAS" and self.mine(a[0]):
            ptr, exp, new, ok, weak, cur, orders = a
            if not ok:
                return self.observe(eng, st, cur, orders[1])
            if eng.nullness(st, exp) is not True:
                if new != exp:
                    return eng.violate(st, "a waiter or the completion of a barrier is replaced")
                return
            if orders[0] not in REL:
                return eng.violate(st, "the state of a barrier is published without release ordering")
            if self.is_c(new):
                self.count("completions")
                self.data.setdefault("completed", set()).add(new)
                g["own"] = 1
                if self.kind == "complete":
                    self.data.setdefault("completing", set()).add(new)
            elif is_ptr(new) and new[1][0] == "H#":
                self.count("waiters published")
                self.observe(eng, st, new, "acquire")
                g["pub"] = tuple(sorted(set(g["pub"]) | {new[1]}, key=repr))
                v = st.mem.get(new[1], {}).get(self.flag)
                if v is None or eng.cmp_truth(st, "eq", v[0], 0) is not True:
                    return eng.violate(st, "a waiter is published being completed already")
            else:
                return eng.violate(st, "unknown state is put into a barrier")
            return
        if kind == "FREE" and is_ptr(a[0]):
            o = a[0][1]
            if self.kind == "dtor":
                if self.is_c(a[0]):
                    return eng.violate(st, "destructor of a barrier frees the completion marker")
                g["freed"] = 1
                return
            if o in g["pub"] or any(is_ptr(v) and v[1] == o for v in g["obs"]):
                return eng.violate(st, "a waiter visible to other threads is freed")
            return
        if kind in ("LOAD", "STORE") and is_ptr(a[0]) and a[0][2] == self.flag and a[0][1] != THIS \
                and self.waiter(st, a[0][1]):
            o = a[0][1]
            if self.kind == "dtor":
                return
            if not any(l[0] == o for l in st.locks):
                return eng.violate(st, "the completion flag of a waiter is accessed without its lock")
            if "relaxed" in g["notes"]:
                return eng.violate(st, "a waiter is used which was obtained without acquire ordering")
            if kind == "LOAD":
                g["read"] = a[1]
                self.count("completion flag read")
            else:
                if eng.cmp_truth(st, "ne", a[1], 0) is not True:
                    return eng.violate(st, "the completion of a waiter is revoked")
                if self.kind == "wait":
                    return eng.violate(st, "waiting for a barrier completes it")
                g["set"] = o
            return
        if kind == "UNLOCK" and is_ptr(a[0]):
            if g.get("set") == a[0][1] and not g.get("ntf"):
                return eng.violate(st, "waiting threads are not notified of the completion under the waiter's lock, "
                                       "they may miss it or have destroyed the waiter already")
            return
        if kind == "NOTIFY":
            if is_ptr(a[0]) and self.waiter(st, a[0][1]) and any(l[0] == a[0][1] for l in st.locks):
                if a[1] == "notify_all":
                    g["ntf"] = 1
                    self.count("notifications")
                else:
                    return eng.violate(st, "only one of the threads waiting for a barrier is notified")
            return
        if kind == "CVWAIT":
            cv, m, timed = a
            o = cv[1] if is_ptr(cv) else None
            self.count("blocking waits")
            if self.kind != "wait":
                return eng.violate(st, "a barrier blocks where it is not expected to")
            if not self.waiter(st, o):
                return eng.violate(st, "waits on a waiter which is not known to the barrier")
            if g["read"] is None or eng.cmp_truth(st, "eq", g["read"], 0) is not True:
                return eng.violate(st, "waits without having tested for completion under the lock")
            t = g.get("timeout")
            if t is not None:
                if timed:
                    for inf in (-1, MAXMS):
                        if eng.cmp_truth(st, "eq", t, inf) is not False:
                            return eng.violate(st, "waiting without limit uses a timeout")
                else:
                    lo, hi = span(eng, st, t)
                    if not (hi < 0 or lo == MAXMS):
                        return eng.violate(st, "waiting with a timeout may block forever")
            return
        if kind == "CVWOKEN":
            g["read"] = None
            if a[2]:
                g["timed"] = 1
            return
        if kind == "RETURN":
            return self.returned(eng, st, a[0] if a else None)

    def evidence(self, eng, st, v):
        """is the barrier known to be completed, provided v is true"""
        g = st.ghost
        if self.completed(st):
            return "relaxed" not in g["notes"]
        r = g["read"]
        if r is None:
            return False
        if r == v:
            return True
        return eng.cmp_truth(st, "ne", r, 0) is True

    def returned(self, eng, st, v):
        g = st.ghost
        k = self.kind
        if k == "ctor":
            m = st.mem.get(THIS, {}).get(self.owner)
            if m is None or eng.nullness(st, m[0]) is not True and m[0] != 0:
                return eng.violate(st, "a new barrier is not open")
            self.count("initial states")
            return
        if k == "complete":
            self.count("completions checked")
            if g.get("own") or self.completed(st):
                return
            if g.get("set") is not None:
                return
            return eng.violate(st, "complete() returns without having completed the barrier")
        if k in ("wait", "test"):
            self.count("results checked")
            if v is None:
                v = 1
            if true_possible(eng, st, v) and not self.evidence(eng, st, v):
                return eng.violate(st, "barrier reported to be complete without having seen the completion")
            if false_possible(eng, st, v):
                if self.completed(st):
                    return eng.violate(st, "completion of the barrier not reported")
                if k == "wait":
                    if not g.get("timed"):
                        return eng.violate(st, "waiting for a barrier fails without its timeout having elapsed")
                    if g["read"] is None:
                        return eng.violate(st, "waiting for a barrier fails without a last look at its completion")
                r = g["read"]
                if r is not None and r != v and eng.cmp_truth(st, "eq", r, 0) is not True:
                    return eng.violate(st, "completion of the barrier not reported")
                if k == "test" and r is None and not any(eng.nullness(st, x) is True for x in g["obs"]):
                    return eng.violate(st, "barrier reported to be incomplete without having looked at it")


class P14(Spec):
    id = "P14"
    explanation = (
        "Abstract interpretation of all functions of the barrier and of the operation based on it, with the "
        "atomic state reloaded at each access under the rely condition proven for all writers: an open barrier "
        "gets a waiter or the completion marker, both final. A typestate automaton demands evidence for each "
        "result and checks the memory orders, the lock of the waiter and the notification.")
    rules = (
        "complete() leaves only having installed or seen the completion marker, or having set the flag of the installed "
        "waiter and notified all waiting threads under the waiter's lock",
        "wait() and tests report completion only having seen marker or flag, failure only after a timed wait and a "
        "last test of the flag",
        "limitless waits use no timeout, timed ones never block forever",
        "blocking only on waiters known to the barrier, which are not freed before the barrier",
        "the state is only changed by compare exchange from the open state, acquire/release ordered; spurious failures "
        "of weak exchanges are considered",
    )
    assumptions = BASE_ASSUMPTIONS + ["a barrier is not destroyed while functions are running on it"]

    def check(self, ctx):
        p = ctx.p
        t = ctx.cls(BARRIER)
        atom = [(off, tid) for n, off, tid in t.members if "atomic<" in p.types[p.canon(tid)].name]
        if len(atom) != 1:
            raise Broken("expected one atomic member of lightweight_barrier")
        owner = atom[0][0]
        ws = [x for x in p.types if x.name == BARRIER + "::waiter" and x.members]
        if not ws:
            raise Broken("lightweight_barrier::waiter vanished")
        w = ws[0]
        flags = [off for n, off, tid in w.members if p.types[p.canon(tid)].name == "bool"]
        if len(flags) != 1:
            raise Broken("expected one flag in lightweight_barrier::waiter")
        done = flags[0]
        todo = []
        kinds = {"wait": "wait", "complete": "complete", "was_completed": "test",
                 "operator()": "complete", "has_passed": "test"}
        for f in ctx.methods(BARRIER):
            todo.append((f, 0))
        bo = ctx.cls(BARRIER_OP)
        boffs = [off for n, off, tid in bo.members if p.canon(tid) == t.id]
        if len(boffs) != 1:
            raise Broken("barrier_operation without barrier")
        for f in ctx.methods(BARRIER_OP):
            todo.append((f, boffs[0]))
        found = set()
        for f, base in todo:
            if f.artificial and not f.ctor:
                continue
            if f.ctor:
                k = "dtor" if "~" in f.base else "ctor"
                if k == "ctor" and copyish(ctx, f):
                    continue
                if base and k == "dtor":
                    continue
            else:
                k = kinds.get(f.base)
                if k is None:
                    if f.acc in (1, 2) or (f.acc == 0 and not f.base):
                        continue
                    k = "other"
            found.add((f.base, base > 0))
            loc = base + owner

            def rely(eng, st, ptr, old, new, loc=loc):
                if ptr[1] == THIS and ptr[2] == loc and old is not None and eng.nullness(st, old) is False:
                    eng.assume_cmp(st, "eq", new, old)

            def setup(eng, st, f, a):
                for i, pa in enumerate(f.di[1:]):
                    c = p.canon(pa)
                    if c >= 0 and "duration" in p.types[c].name and i < len(a):
                        st.ghost["timeout"] = a[i]
                        if not is_ptr(a[i]):
                            st.ghost["timeout"] = a[i]
            ctx.job(f, lambda f=f, loc=loc, k=k: BarrierMonitor(self, f, loc, w, done, k),
                    setup=setup, arely=rely, label=f.dem)
        for need in (("wait", False), ("complete", False), ("was_completed", False), ("wait", True),
                     ("operator()", True), ("has_passed", True)):
            if need not in found:
                raise Broken("%s of the barrier vanished" % need[0])
        mine = ctx.run()
        comp = set()
        for r in mine:
            comp |= r["data"].get("completing", set())
        allc = set()
        for r in mine:
            allc |= r["data"].get("completed", set())
        if comp and allc - comp:
            ctx.violate("a marker is taken for completion which complete() never sets", ctx.fn(BARRIER + "::wait")[0].file,
                        "lightweight_barrier")
        for what in ("completions", "waiters published", "blocking waits", "results checked", "notifications"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)


# ------------------------------------------------------------------ semaphore
class SemMonitor(Monitor):
    def __init__(self, f, cnt, wait, kind, exact=False):
        self.f = f
        self.cnt = cnt
        self.wait = wait
        self.exact = exact
        self.kind = kind

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["dec"] = 0
        g["add"] = 0
        g["ann"] = 0          # announced as waiter
        g["annsc"] = False    # ... ordered before the following accesses
        g["zero"] = None      # count seen to be zero since, under the lock
        g["addsc"] = False
        g["nowait"] = False   # no waiters after the count was raised
        g["lk"] = False       # lock taken after the count was raised
        g["ntf"] = None

    def loc(self, ptr):
        if not is_ptr(ptr) or ptr[1] != THIS:
            return None
        return "cnt" if ptr[2] == self.cnt else "wait" if ptr[2] == self.wait else None

    def locked(self, st):
        return any(l[0] == THIS for l in st.locks)

    def see(self, eng, st, v, order):
        g = st.ghost
        if g["ann"] == 1 and self.locked(st):
            g["zero"] = (v, order == "seq_cst" and g["annsc"])

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            return
        if kind == "FENCE":
            if a and a[0] == "seq_cst":
                if g["ann"]:
                    g["annsc"] = True
                if g["add"]:
                    g["addsc"] = True
            return
        if kind in ("ALOAD", "ASTORE", "RMW", "CAS"):
            what = self.loc(a[0])
            if what is None:
                return
            self.count("accesses of the counters")
            if kind == "ASTORE":
                return eng.violate(st, "counter of the semaphore overwritten")
            if what == "cnt":
                return self.on_count(eng, st, kind, a)
            return self.on_waiters(eng, st, kind, a)
        if kind == "LOCK" and is_ptr(a[0]) and a[0][1] == THIS:
            g["zero"] = None
            if g["add"]:
                g["lk"] = True
            return
        if kind == "UNLOCK" and is_ptr(a[0]) and a[0][1] == THIS:
            g["zero"] = None
            return
        if kind == "CVWAIT":
            self.count("blocking waits")
            if g["ann"] != 1:
                return eng.violate(st, "blocks on a semaphore without having announced itself")
            if g["zero"] is None or eng.cmp_truth(st, "eq", g["zero"][0], 0) is not True:
                return eng.violate(st, "blocks on a semaphore without having tested its count again after announcing "
                                       "itself, under the lock")
            if g["zero"][1] is False:
                return eng.violate(st, "the last test before blocking on a semaphore is not ordered after the "
                                       "announcement")
            if g["dec"]:
                return eng.violate(st, "blocks on a semaphore holding an acquisition")
            return
        if kind == "CVWOKEN":
            g["zero"] = None
            if a[2]:
                g["timed"] = 1
            return
        if kind == "NOTIFY" and is_ptr(a[0]) and a[0][1] == THIS:
            if g["add"] and g["lk"]:
                if a[1] == "notify_one" and self.exact:
                    g["ones"] = min(g.get("ones", 0) + 1, 8)
                g["ntf"] = a[1] if g["ntf"] in (None, "notify_one") else g["ntf"]
                self.count("notifications")
            return
        if kind in ("RETURN", "UNWIND"):
            return self.returned(eng, st, kind, a[0] if a else None)

    def on_count(self, eng, st, kind, a):
        g = st.ghost
        if kind == "ALOAD":
            return self.see(eng, st, a[1], a[2])
        if kind == "CAS":
            ptr, exp, new, ok, weak, cur, orders = a
            if not ok:
                return self.see(eng, st, cur, orders[1])
            if self.kind == "release":
                return self.add(eng, st, eng.binop(st, "sub", new, exp, 32) if hasattr(eng, "binop") else None, orders[0])
            lo, hi = span(eng, st, exp)
            if lo < 1:
                return eng.violate(st, "a semaphore is acquired without a unit being available")
            if eng.cmp_truth(st, "eq", new, ("+", exp, -1) if not isinstance(exp, int) else exp - 1) is not True \
                    and new != self.minus1(exp):
                return eng.violate(st, "acquiring a semaphore does not consume exactly one unit")
            if orders[0] not in ACQ:
                return eng.violate(st, "a semaphore is acquired without acquire ordering")
            g["dec"] += 1
            self.count("units acquired")
            if g["dec"] > 1:
                return eng.violate(st, "a single call acquires a semaphore twice")
            return
        # RMW
        ptr, op, val, old, order = a[0], a[1], a[2], a[3], a[5] if len(a) > 5 else a[4]
        if self.kind == "release" and op == "add":
            return self.add(eng, st, val, order)
        return eng.violate(st, "the count of a semaphore is changed without testing it")

    def minus1(self, v):
        if isinstance(v, int):
            return v - 1
        if v[0] == "+":
            return ("+", v[1], v[2] - 1) if v[2] != 1 else v[1]
        return ("+", v, -1)

    def add(self, eng, st, val, order):
        g = st.ghost
        g["add"] += 1
        if g["add"] > 1:
            return eng.violate(st, "the units of a semaphore are released twice")
        if val != g["arg"] and eng.cmp_truth(st, "eq", val, g["arg"]) is not True:
            return eng.violate(st, "a semaphore is not released by the count requested")
        if order not in REL:
            return eng.violate(st, "a semaphore is released without release ordering")
        g["addsc"] = order == "seq_cst"
        if self.locked(st):
            # announced and tested under the same lock
            g["lk"] = True
        self.count("units released")

    def on_waiters(self, eng, st, kind, a):
        g = st.ghost
        if kind == "ALOAD":
            if g["add"] and eng.cmp_truth(st, "eq", a[1], 0) is not False:
                # decided below by what is done about it
                g["w"] = a[1]
                g["wsc"] = a[2] == "seq_cst" and g["addsc"]
            elif g["add"]:
                g["w"] = a[1]
                g["wsc"] = True
            return
        if kind == "RMW":
            op, val, order = a[1], a[2], a[5] if len(a) > 5 else a[4]
            d = val if isinstance(val, int) else None
            if op == "sub" and d is not None:
                d = -d
            elif op != "add":
                d = None
            if d not in (1, -1):
                return eng.violate(st, "number of waiters of a semaphore is not changed by one")
            g["ann"] += d
            if g["ann"] not in (0, 1):
                return eng.violate(st, "number of waiters of a semaphore gets unbalanced")
            g["annsc"] = d == 1 and order == "seq_cst"
            g["zero"] = None
            self.count("announcements" if d == 1 else "revoked announcements")
            return
        return eng.violate(st, "number of waiters of a semaphore is exchanged")

    def returned(self, eng, st, kind, v):
        g = st.ghost
        if self.kind in ("ctor", "dtor", "other"):
            return
        if g["ann"] != 0:
            return eng.violate(st, "a thread leaving a semaphore is still announced as waiting")
        if kind == "UNWIND":
            return
        self.count("results checked")
        if self.kind == "acquire":
            if v is None:
                v = 1
            if true_possible(eng, st, v) and g["dec"] != 1:
                return eng.violate(st, "acquiring a semaphore reported to succeed without having taken a unit")
            if false_possible(eng, st, v):
                if g["dec"] != 0:
                    return eng.violate(st, "acquiring a semaphore reported to fail but a unit was taken")
                if self.f.base == "wait_acquire" and not g.get("timed"):
                    return eng.violate(st, "acquiring a semaphore fails before its timeout elapsed")
            return
        if self.kind == "release":
            if g["add"] != 1:
                return eng.violate(st, "releasing a semaphore does not raise its count")
            if g["ntf"] == "notify_all":
                return
            if g["ntf"] == "notify_one":
                # (decided by the runs with a known number of units, which execute loops exactly)
                n = g["arg"]
                if self.exact and type(n) is int and g.get("ones", 0) < n:
                    return eng.violate(st, "only one thread is notified though several units were released")
                return
            w = g.get("w")
            if w is not None and (eng.cmp_truth(st, "eq", w, 0) is True or eng.cmp_truth(st, "sle", w, 0) is True):
                if not g["wsc"]:
                    return eng.violate(st, "testing for waiters of a semaphore is not ordered after raising its count")
                return
            return eng.violate(st, "threads waiting for a semaphore are not notified")


class P16(Spec):
    id = "P16"
    explanation = (
        "Abstract interpretation of all functions of the semaphore, its counters being reloaded at each access. The "
        "automaton counts the decrements of each path against the result returned and checks both sides of the "
        "announcement protocol: waiters announce themselves before their last test of the count under the lock, "
        "releases raise the count before testing for waiters.")
    rules = (
        "success <=> exactly one decrement from a positive count, failure <=> none",
        "release adds its argument exactly once",
        "blocking only announced, after a test of the count under the lock, sequentially consistent after the announcement",
        "announcements revoked on all exits",
        "release: notifies under or after the lock unless no waiters were seen after raising the count; one thread only "
        "for a single unit",
    )
    assumptions = BASE_ASSUMPTIONS + ["the count does not overflow"]

    def check(self, ctx):
        p = ctx.p
        t = ctx.cls(SEMAPHORE)
        atoms = [off for n, off, tid in t.members if "atomic<" in p.types[p.canon(tid)].name]
        # the count is what release() adds its argument to
        rel = ctx.fn(SEMAPHORE + "::release")[0]

        class Probe(Monitor):
            def event(self, eng, st, kind, *a):
                if kind in ("RMW", "CAS", "ASTORE") and is_ptr(a[0]) and a[0][1] == THIS:
                    self.data.setdefault("w", []).append(a[0][2])
        from core import Ctx
        pr = Probe()
        eng = Engine(p, pr, Models(), budget=200000)
        pr.data = {}
        pr.facts = {}
        eng.run_entry(rel)
        w = pr.data.get("w", [])
        if not w:
            raise Broken("semaphore::release changes no counter")
        cnt = w[0]
        rest = [o for o in atoms if o != cnt]
        if len(rest) != 1:
            raise Broken("expected two atomic counters in the semaphore, found %d" % len(atoms))
        n = 0
        for f in ctx.methods(SEMAPHORE):
            if f.ctor:
                continue
            if f.acc in (1, 2):
                continue
            k = "release" if f.key == rel.key else \
                "acquire" if "acquire" in f.base else "other"
            n += 1

            def setup(eng, st, f, a, k=k, units=None):
                st.ghost["arg"] = a[1] if k == "release" and len(a) > 1 else None
                if units:
                    st.ghost["arg"] = units
                    return [a[0], units] + list(a[2:])

            ctx.job(f, lambda f=f, k=k: SemMonitor(f, cnt, rest[0], k), setup=setup, label=f.dem)
            if k == "release" and len(f.di) > 2:
                # a number of units which is known: loops are executed exactly
                for units in (1, 2, 3):
                    ctx.job(f, lambda f=f, k=k: SemMonitor(f, cnt, rest[0], k, exact=True),
                            setup=lambda eng, st, f, a, units=units: setup(eng, st, f, a, "release", units),
                            label="%s of %d" % (f.dem, units), unroll=6)
        ctx.floor("public functions of the semaphore", n, 4)
        ctx.run()
        for what in ("units acquired", "units released", "announcements", "notifications", "blocking waits",
                     "results checked"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)


# ----------------------------------------------------------------- cancelable
class CancelMonitor(Monitor):
    """state word: number of active calls plus a flag once disabled"""

    def __init__(self, f, state, flag, kind, pin, tls):
        self.f = f
        self.state = state
        self.bit = flag
        self.kind = kind
        self.pin = pin
        self.tls = tls

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["in"] = 0
        g["set"] = 0          # registrations of the object for this thread
        g["obs"] = ()
        g["rec"] = None
        g["wait"] = 0
        g["done"] = 0
        g["old"] = None

    def loc(self, p):
        return is_ptr(p) and p[1] == THIS and p[2] == self.state

    def disabled(self, eng, st, v):
        """is the flag set in a value of the state: True, False, None"""
        if isinstance(v, int):
            return bool(v & self.bit)
        lo, hi = span(eng, st, v)
        if lo >= self.bit:
            return True
        if lo >= 0 and hi < self.bit:
            return False
        m = eng.binop(st, "and", v, self.bit, 32, None)
        r = eng.cmp_truth(st, "ne", m, 0)
        return r

    def saw(self, eng, st, v):
        m = eng.binop(st, "and", v, self.bit, 32, None)
        st.ghost["obs"] = ((v, m),)

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind in ("ALOAD", "ASTORE", "RMW", "CAS") and self.loc(a[0]):
            self.count("accesses of the state")
            return self.access(eng, st, kind, a)
        if kind == "CALL":
            if a[0] == BARRIER + "::wait":
                if g["old"] is None:
                    return eng.violate(st, "cancellation waits before having disabled the object")
                t = a[2] if len(a) > 2 else -1
                lo, hi = span(eng, st, t)
                if not (hi < 0 or lo == MAXMS):
                    return eng.violate(st, "cancellation waits for a limited time only")
                g["wait"] += 1
                self.count("waits for active calls")
            elif a[0] == BARRIER + "::complete":
                if g["old"] is None:
                    return eng.violate(st, "a waiting cancellation is woken before the call has been left")
                g["done"] += 1
                self.count("wake ups")
            return
        if kind == "CKINSERT" and self.key(eng, st, a):
            g["set"] += 1
        elif kind == "CKERASE" and self.key(eng, st, a):
            if g["old"] is not None and self.kind == "leave":
                # still fine, nobody else looks at it
                pass
            if len(a) > 2 and a[2] != "one":
                return eng.violate(st, "leaving one call forgets about the others of the same thread")
            g["set"] -= 1
        elif kind == "CFIND" and self.key(eng, st, a):
            g["rec"] = bool(a[2])
        elif kind == "RETURN":
            self.returned(eng, st, a[0] if a else None)

    def key(self, eng, st, a):
        if len(a) < 2:
            return False
        k = a[1]
        if is_ptr(k) and k[1] == THIS:
            if not (is_ptr(a[0]) and a[0][1][0] == "G#" and a[0][1][1] in self.tls):
                return False
            return True
        return False

    def access(self, eng, st, kind, a):
        g = st.ghost
        k = self.kind
        if kind == "ALOAD":
            if self.pin is not None and k == "test":
                eng.assume_cmp(st, "eq", a[1], self.pin)
                g = st.ghost
                g["obs"] = (self.pin,)
                return
            self.saw(eng, st, a[1])
            return
        if kind == "ASTORE":
            return eng.violate(st, "state of a cancelable object overwritten")
        if kind == "CAS":
            ptr, exp, new, ok, weak, cur, orders = a
            if not ok:
                self.saw(eng, st, cur)
                return
            old, order = exp, orders[0]
        else:
            ptr, op, val, old, new, order = a
        if order != "seq_cst" and order != "acq_rel":
            return eng.violate(st, "state of a cancelable object changed without acquire and release ordering")
        if g["old"] is not None:
            return eng.violate(st, "state of a cancelable object changed twice by one call")
        if k == "enter":
            if self.disabled(eng, st, old) is not False:
                return eng.violate(st, "a disabled object can be entered")
            if new != self.plus(old, 1):
                return eng.violate(st, "entering does not count the call")
            g["in"] += 1
            g["old"] = 1
            self.count("entries")
            return
        if kind == "CAS" and k in ("leave", "disable") and self.pin is not None:
            pass
        if self.pin is not None:
            eng.assume_cmp(st, "eq", old, self.pin)
            if st.dead:
                return
        g = st.ghost
        g["old"] = self.pin
        if k == "leave":
            m = st.mem.get(THIS, {}).get(self.state)
            if m is None or m[0] != self.pin - 1:
                return eng.violate(st, "leaving does not count the call as ended")
            self.count("exits")
            return
        if k == "disable":
            m = st.mem.get(THIS, {}).get(self.state)
            v = m[0] if m else None
            if not isinstance(v, int) and kind == "RMW" and isinstance(val, int):
                v = self.pin | val if op == "or" else self.pin + val if op == "add" else None
            if v != (self.pin | self.bit):
                return eng.violate(st, "disabling corrupts the number of active calls")
            self.count("disabled")
            return
        return eng.violate(st, "state of a cancelable object changed unexpectedly")

    def plus(self, v, d):
        if isinstance(v, int):
            return v + d
        if v[0] == "+":
            return ("+", v[1], v[2] + d) if v[2] + d else v[1]
        return ("+", v, d)

    def returned(self, eng, st, v):
        g = st.ghost
        k = self.kind
        self.count("results checked")
        if k == "enter":
            if true_possible(eng, st, v) and g["in"] != 1:
                return eng.violate(st, "entering reported to succeed without being counted")
            if false_possible(eng, st, v):
                if g["in"]:
                    return eng.violate(st, "entering reported to fail but is counted")
                if not any(eng.cmp_truth(st, "ne", m, 0) is True or self.disabled(eng, st, x) is True for x, m in g["obs"]):
                    return eng.violate(st, "an object not disabled cannot be entered")
            if g["set"] != g["in"]:
                return eng.violate(st, "active call is not registered for its thread")
        elif k == "leave":
            if g["old"] is None:
                return eng.violate(st, "leaving does not count the call as ended")
            if g["set"] != -1:
                return eng.violate(st, "ended call stays registered for its thread")
            last = self.pin == (self.bit | 1)
            if last and g["done"] != 1:
                return eng.violate(st, "the last call of a disabled object does not wake the waiting cancellation")
            if not last and g["done"]:
                return eng.violate(st, "waiting cancellation is woken while calls are active or the object is enabled")
        elif k == "disable":
            if g["old"] is None:
                return eng.violate(st, "cancellation does not disable the object")
            active = (self.pin & ~self.bit) > 0
            if g["rec"] is True:
                if g["wait"]:
                    return eng.violate(st, "cancelling from within the call itself blocks")
            elif active and not g["wait"]:
                return eng.violate(st, "cancellation does not wait for active calls")
            elif not active and g["wait"]:
                return eng.violate(st, "cancellation blocks without an active call")
        elif k == "test":
            want = bool(self.pin & self.bit)
            r = eng.cmp_truth(st, "ne", v, 0) if v is not None else None
            if r is not want:
                return eng.violate(st, "the object is reported to be %s" % ("enabled" if want else "disabled"))
        elif k == "ctor":
            m = st.mem.get(THIS, {}).get(self.state)
            if m is None or m[0] != 0:
                return eng.violate(st, "a new cancelable object is not enabled and idle")


class ScopeMonitor(Chain):
    """cancelable_scope: constructor, test, destructor"""

    def __init__(self, fns):
        Chain.__init__(self, 0)
        self.seq = fns

    def begin(self, eng, st):
        st.ghost["in"] = 0
        st.ghost["left"] = 0
        st.ghost["n"] = 0

    def on(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "ENTER":
            if g["n"] != 0:
                return eng.violate(st, "scope enters outside of its constructor")
            g["in"] += 1
            g["res"] = a[0]
            self.count("scopes entered")
        elif kind == "LEAVE":
            g["left"] += 1
            if self.seq[g["n"]] != "dtor":
                return eng.violate(st, "scope is left before its end")
        elif kind == "CONT":
            g["n"] += 1
        elif kind == "RETURN":
            what = self.seq[g["n"]]
            if what == "ctor" and g["in"] != 1:
                return eng.violate(st, "scope does not enter its object")
            if what == "test":
                r = eng.cmp_truth(st, "ne", a[0], 0)
                if r is not bool(g["res"]):
                    return eng.violate(st, "scope does not report whether the object was entered")
            if what == "dtor" and g["left"] != (1 if g["res"] else 0):
                return eng.violate(st, "scope does not leave its object exactly if it entered it")
            self.count("scope functions checked")


def enter_model(eng, st, c, a):
    def one(v):
        def fn(s):
            eng.emit(s, "ENTER", v, a[0])
            return "DEAD" if s.dead else v
        return fn
    return eng.fork(st, c, [one(1), one(0)])


def leave_model(eng, st, c, a):
    eng.emit(st, "LEAVE", a[0])
    if st.dead:
        return False
    return eng.ret(st, c, None)


class NestMonitor(Monitor):
    """calls of one thread in a row: nested calls of the same object"""

    def __init__(self, seq, names):
        self.seq = seq
        self.names = names

    def start(self, eng, st):
        st.ghost["at"] = 0
        st.ghost["in"] = 0
        st.ghost["off"] = False

    def event(self, eng, st, kind, *a):
        g = st.ghost
        what = self.seq[min(g["at"], len(self.seq) - 1)]
        if kind == "CALL" and a[0] == BARRIER + "::wait":
            if g["in"]:
                return eng.violate(st, "cancelling from within a call waits for this very call")
        elif kind == "ENDDEREF":
            eng.violate(st, "leaving a nested call takes the registration of the thread for missing")
        elif kind == "RETURN":
            self.facts["nested calls"] = self.facts.get("nested calls", 0) + 1
            r = a[0] if a else None
            if what == "enter":
                if g["off"]:
                    if true_possible(eng, st, r):
                        return eng.violate(st, "a disabled object can be entered by a nested call")
                else:
                    if false_possible(eng, st, r):
                        return eng.violate(st, "an enabled object can not be entered by a nested call")
                    g["in"] += 1
            elif what == "leave":
                g["in"] -= 1
            elif what == "disable":
                g["off"] = True
            elif what == "is_disabled":
                if (false_possible if g["off"] else true_possible)(eng, st, r):
                    return eng.violate(st, "the state reported after nested calls is wrong")
        elif kind == "CONT":
            g["at"] += 1


NESTED = (
    ("enter", "disable", "leave"),
    ("enter", "disable", "enter", "is_disabled"),
    ("enter", "enter", "disable"),
    ("enter", "enter", "leave", "disable", "leave", "is_disabled"),
    ("enter", "enter", "leave", "leave", "disable", "enter"),
    ("enter", "leave", "enter", "is_disabled"),
)


class P10(Spec):
    id = "P10"
    explanation = (
        "Abstract interpretation of the functions of cancelable objects, each run for the representative states "
        "{enabled, disabled} x {no, one, several active calls} at its atomic step, with the state reloaded at each other "
        "access. The scope object is checked as sequence constructor, test, destructor; who may use the primitive "
        "functions is decided on the call graph. The places invoking handlers are checked to do so only within an "
        "entered scope.")
    rules = (
        "entering succeeds exactly if counted by compare exchange from an enabled state and registered for the thread",
        "leaving uncounts once, removes one registration and wakes waiting cancellations exactly if it was the last call "
        "of a disabled object",
        "disabling sets the flag atomically and then waits without limit exactly if calls are active and the thread "
        "itself is not within one",
        "scopes leave exactly if they entered; only scopes enter and leave",
        "calls nested within one thread: cancelling never waits for the thread itself, the object stays disabled",
        "handlers of connections, timers and notifiers run only within an entered scope, cancellation disables first",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "barriers work as decided by P14",
        "less than 2^30 calls of one object are active at a time",
    ]

    def check(self, ctx):
        p = ctx.p
        t = ctx.cls(CANCELABLE)
        atoms = [off for n, off, tid in t.members if "atomic<" in p.types[p.canon(tid)].name]
        if len(atoms) != 1:
            raise Broken("expected one atomic state in cancelable, found %d" % len(atoms))
        state = atoms[0]
        fn = {}
        for f in ctx.methods(CANCELABLE):
            fn.setdefault(f.base, f)
        for n in ("enter", "leave", "disable", "is_disabled"):
            if n not in fn:
                raise Broken("cancelable::%s vanished" % n)
        bit = self.flag(p, fn["disable"], state)
        tls = {g for g, x in p.globals.items() if x.get("tls")}
        opq = (BARRIER + "::wait", BARRIER + "::complete")
        states = [0, 1, 2, 7]

        def job(f, kind, pin):
            ctx.job(f, lambda: CancelMonitor(f, state, bit, kind, pin, tls), opaque=opq,
                    label="%s [state %s]" % (f.dem, "any" if pin is None else
                                             "%s%d active" % ("disabled, " if pin & bit else "", pin & ~bit)))
        job(fn["enter"], "enter", None)
        for s in states:
            for b in (0, bit):
                if s:
                    job(fn["leave"], "leave", s | b)
                job(fn["disable"], "disable", s | b)
                job(fn["is_disabled"], "test", s | b)
        for c in ctors(ctx, CANCELABLE):
            job(c, "ctor", None)
        # ---- calls nested in one thread
        def first(seq):
            follow = chain_setup([fn[x] for x in seq[1:]])

            def setup(eng, st, f, a):
                eng.store(st, ("p", THIS, state), 0, p.sizeof(p.leaf(t.id, state)[1]) or 4)
                return follow(eng, st, f, a)
            return setup
        for seq in NESTED:
            ctx.job(fn[seq[0]], lambda seq=seq: NestMonitor(seq, fn), opaque=opq, sequential=True, setup=first(seq),
                    label="nested: %s" % ", ".join(seq))
        # ---- the scope
        sc = CANCELABLE + "_scope"
        ms = ctx.methods(sc)
        dtor = [f for f in ms if f.ctor and "~" in f.base]
        test = [f for f in ms if not f.ctor and "operator" in f.base]
        if not dtor or not test:
            raise Broken("functions of cancelable_scope vanished")
        extra = {CANCELABLE + "::enter": enter_model, CANCELABLE + "::leave": leave_model}
        for c in ctors(ctx, sc):
            ctx.job(c, lambda: ScopeMonitor(["ctor", "test", "dtor"]), models=lambda: Models(extra),
                    setup=chain_setup([test[0], dtor[0]]), label=sc)
        # ---- nobody else enters or leaves
        refs = ctx.refs()
        n = 0
        for base in ("enter", "leave"):
            for who in refs.get(fn[base].name, ()):
                n += 1
                f = p.funcs.get(who)
                if f is None or not f.key.startswith(sc + "::"):
                    ctx.violate("%s() used outside of a scope, it may not be balanced" % base,
                                f.file if f else who, f.dem if f else who)
        ctx.counts["uses of enter and leave"] = n
        scoped(ctx)
        ctx.run()
        for what in ("entries", "exits", "disabled", "wake ups", "waits for active calls", "scopes entered"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)

    def flag(self, p, f, state):
        class Probe(Monitor):
            facts = {}

            def event(self, eng, st, kind, *a):
                if kind == "RMW" and is_ptr(a[0]) and a[0][1] == THIS and a[0][2] == state and a[1] == "or" \
                        and isinstance(a[2], int):
                    self.bits.add(a[2])
                if kind == "CAS" and is_ptr(a[0]) and a[0][1] == THIS and a[0][2] == state and a[3]:
                    n = a[2]
                    if isinstance(n, tuple) and n[0] == "y#" and "or" in repr(n):
                        import re
                        for x in re.findall(r"/(\d+)/\d+$", str(n[1])) if isinstance(n[1], str) else []:
                            self.bits.add(int(x))
        pr = Probe()
        pr.bits = set()
        eng = Engine(p, pr, Models(), opaque=(BARRIER + "::wait",), budget=100000)
        eng.run_entry(f)
        if len(pr.bits) != 1:
            raise Broken("flag used to disable a cancelable object not recognised")
        return pr.bits.pop()


def scoped(ctx):
    """handlers run within a scope (see components)"""
