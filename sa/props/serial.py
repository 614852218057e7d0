"""Serial queues: mutual exclusion and submission order."""
from props import Spec
from props.common import *


class SerialMonitor(Chain):
    """The list of a queue and the token "a drain of this queue is scheduled or
    active". Whenever the lock of the queue is released the list is not empty
    if and only if the token exists."""
    lock_msg = "operations of a serial queue accessed without holding its lock"

    def __init__(self, skip, lst, entry, arg):
        Chain.__init__(self, skip)
        self.lst = lst
        self.entry = entry
        self.arg = arg            # index of the operation argument or None

    def list_ptr(self):
        return ("p", THIS, self.lst)

    def begin(self, eng, st):
        g = st.ghost
        g["phase"] = "api"
        g["ins"] = 0
        g["k"] = 0
        g["op"] = 0
        if self.arg is not None:
            g["op"] = deref(eng, st, eng.last_args[self.arg])
            eng.assume_cmp(st, "ne", g["op"], 0)

    def mine(self, p):
        return is_ptr(p) and p[1] == THIS and p[2] == self.lst

    def locked(self, st):
        return any(l[0] == THIS for l in st.locks)

    def on(self, eng, st, kind, *a):
        g = st.ghost
        drain = g.get("phase") == "drain"
        if kind == "CONT":
            g["phase"] = "drain"
            g["tok"] = "held"
            g["k"] = 0
            g["front"] = None
            g["run"] = None
            g.pop("s0", None)
            self.count("drains")
            return
        if kind == "LOCK" and a[0][1] == THIS:
            g["s0"] = eng.models.size(eng, st, self.list_ptr())
            g["k"] = 0
            return
        if kind in ("UNLOCK", "CVWAIT") and a[0 if kind == "UNLOCK" else 1][1] == THIS:
            return self.release(eng, st)
        if kind[0] == "C" and a and self.mine(a[0]) and kind not in ("CDTOR", "CALL", "CONT", "CATCH"):
            if not self.locked(st):
                return eng.violate(st, self.lock_msg)
            self.count("list accesses")
            return self.access(eng, st, kind, a, drain)
        if kind == "EMPTYACCESS" and self.mine(a[0]):
            return eng.violate(st, "an element of an empty serial queue is accessed")
        if kind == "EXEC":
            if not drain:
                return eng.violate(st, "operation of a serial queue executed on the submitting thread")
            return self.execute(eng, st, a)
        if kind == "EXECRET" and drain:
            g["run"] = None
            return
        if kind == "VCALL" and a[0] == THREADPOOL and a[1] == "execute":
            return self.schedule(eng, st, a, drain)

    # -------------------------------------------------------------- the list
    def access(self, eng, st, kind, a, drain):
        g = st.ghost
        kind, a = taken_first(kind, a)
        if kind == "CINSERT":
            if drain:
                # nothing an operation submits is inserted by the drain itself
                return eng.violate(st, "drain of a serial queue inserts operations")
            if a[1] != "back":
                return eng.violate(st, "operation is not appended to the end of a serial queue")
            if not same(eng, st, a[2], g["op"]) and self.arg is not None:
                return eng.violate(st, "a serial queue stores something else than the submitted operation")
            g["ins"] += 1
            g["elem"] = a[3]
            if g["ins"] > 1:
                return eng.violate(st, "operation is stored in a serial queue twice")
            return
        if kind in ("CREAD",):
            what, val = a[1], a[2]
            if what == "back" and drain:
                return eng.violate(st, "serial queue executes the most recent operation first")
            return
        if kind == "CPOP":
            base, v, elem = a[1], a[2], a[3]
            if not drain:
                return eng.violate(st, "operation is removed from a serial queue without being executed")
            if base != "pop_front":
                return eng.violate(st, "operations are not removed from the front of a serial queue")
            if g.get("run"):
                return eng.violate(st, "operation removed while being executed")
            if g["tok"] != "held":
                return eng.violate(st, "operations are taken out of a serial queue by a drain which does not own it")
            if g.get("done") != elem:
                n = null(eng, st, v)
                if n is not True:
                    return eng.violate(st, "operation is removed from a serial queue without being executed")
            g["done"] = None
            self.count("removals")
            return
        if kind in ("CITER", "CITEREND", "CBEGIN", "CINDEX"):
            return
        # anything else reorders or drops operations
        return eng.violate(st, "operations of a serial queue are not taken one by one from its front (%s)" % kind)

    def execute(self, eng, st, a):
        g = st.ghost
        op = a[0]
        if g["tok"] != "held":
            return eng.violate(st, "operation of a serial queue executed by a drain which does not own it")
        if self.locked(st):
            return eng.violate(st, "operation executed while holding the lock of its serial queue")
        segs = eng.models.segs(eng, st, self.list_ptr())
        if not segs or segs[0][0] == "sg":
            return eng.violate(st, "operation executed is not the first one of its serial queue")
        e = segs[0]
        if g.get("done") == ("p", e, 0):
            return eng.violate(st, "operation of a serial queue executed twice")
        want = self.first(eng, st, e)
        if not same(eng, st, want, op):
            return eng.violate(st, "operation executed is not the first one of its serial queue")
        g["done"] = ("p", e, 0)
        g["run"] = 1
        self.count("executions")

    def first(self, eng, st, e):
        """what had been submitted in the first slot"""
        own = st.ghost.get("elem")
        if own is not None and own[1] == e:
            return st.ghost["op"]
        return ("p", ("S#", ("ld", e, 0), 0), 0)

    # -------------------------------------------------------------- the token
    def schedule(self, eng, st, a, drain):
        g = st.ghost
        op = deref(eng, st, a[3])
        if eng.models.op_function(eng, st, op) is None:
            return eng.violate(st, "operation is handed to the pool bypassing the order of its serial queue")
        if not self.locked(st):
            return eng.violate(st, "drain of a serial queue is scheduled without holding its lock")
        self.count("drains scheduled")
        g["k"] += 1
        if g["k"] > 1:
            return eng.violate(st, "two drains of the same serial queue are scheduled")
        if drain:
            if g["tok"] != "held":
                return eng.violate(st, "two drains of the same serial queue are scheduled")
            g["tok"] = "passed"
        else:
            st.conts = (("exec", op, "drain"),)

    def release(self, eng, st):
        g = st.ghost
        now = empty(eng, st, self.list_ptr())
        self.count("lock releases checked")
        if g["phase"] == "drain":
            if g["tok"] == "held":
                if now is True:
                    g["tok"] = "done"
                elif now is None:
                    return eng.violate(st, "a drain releases the lock of its serial queue without knowing "
                                           "whether another drain is needed")
            elif g["tok"] == "passed":
                if now is not False:
                    return eng.violate(st, "a drain is scheduled for an empty serial queue")
            elif g["tok"] == "done" and now is not True:
                # others may have added since, nothing is to be done
                pass
            return
        was = g.get("s0")
        if was is None or not (g["ins"] or g["k"]):
            return
        was = eng.cmp_truth(st, "eq", was, 0)
        if g["k"] == 0:
            if now is True:
                return
            if was is False:
                return
            return eng.violate(st, "no drain is scheduled for the operation added to an idle serial queue")
        if was is not True:
            return eng.violate(st, "a second drain is scheduled for a serial queue which is active already")
        if now is not False:
            return eng.violate(st, "a drain is scheduled for an empty serial queue")

    def finished(self, eng, st, how):
        g = st.ghost
        if how != "RETURN":
            return
        if g["phase"] == "drain":
            if g["tok"] == "held":
                return eng.violate(st, "a drain ends with operations left in its serial queue")


class AsyncMonitor(SerialMonitor):
    def on(self, eng, st, kind, *a):
        if kind == "RETURN" and st.ghost["phase"] == "api" and self.arg is not None:
            if st.ghost["ins"] != 1:
                return eng.violate(st, "operation submitted to a serial queue is not stored")
            self.count("submissions")
        return SerialMonitor.on(self, eng, st, kind, *a)


def op_arg(p, f):
    """index of the parameter transporting an operation"""
    di = f.di[1:]
    for i, t in enumerate(di):
        c = p.canon(t)
        if c >= 0 and p.types[c].tag in (TAG_REF, TAG_RREF):
            c = p.canon(p.types[c].base)
        if c >= 0 and "shared_ptr<xdispatch::operation>" in p.types[c].name:
            return i
    return None


class P01(Spec):
    id = "P01"
    requires = ("P21.queue",)
    explanation = (
        "Path sensitive abstract interpretation of all public functions of the operation queue, "
        "of its construction and of the drain operation it schedules (executed as continuation). "
        "A typestate automaton tracks the list of operations and the token 'a drain is scheduled or "
        "active': at each release of the queue's lock the token must exist exactly if the list is not empty.")
    rules = (
        "the operation list is only accessed under the queue's lock",
        "operations are appended at the back and removed from the front after having been executed",
        "at every lock release: list not empty <=> exactly one drain scheduled or active",
        "only the drain owning the token executes operations, without the lock held",
        "queues having an operation queue pass everything submitted to it and nothing to a pool; what is created as serial "
        "or main queue is one of these",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "the threadpool executes each operation handed to it exactly once (P02)",
        "other threads only use the public functions of the queue (rely: concurrent calls only append)",
    ]

    def check(self, ctx):
        p = ctx.p
        t = ctx.cls(OPQ)
        lists = member_offsets(p, t.id, is_op_container)
        if len(lists) != 1:
            raise Broken("expected one list of operations in the operation queue, found %d" % len(lists))
        lst = lists[0][0]
        pub = [f for f in ctx.methods(OPQ) if f.acc == 3 and not f.ctor and "~" not in f.base]
        by = {f.base: f for f in pub}
        for n in ("attach", "detach", "async"):
            if n not in by:
                raise Broken("operation_queue::%s vanished" % n)
        const = const_between(ctx, OPQ, [by["attach"], by["detach"]])
        rely = append_rely(lambda eng, st, o, off: o == THIS and off == lst)
        n = 0
        for c in ctors(ctx, OPQ):
            for f in pub:
                chain = [by["attach"], f] if f.base != "attach" else [f]
                arg = op_arg(p, f)
                ctx.job(c, lambda f=f, arg=arg, k=len(chain): AsyncMonitor(k, lst, f, arg),
                        label=f.dem, setup=chain_setup(chain), rely=rely, const_extra=const)
                n += 1
        ctx.floor("public functions of the operation queue", n, 3)
        ctx.run()
        for what in ("submissions", "drains", "executions", "removals", "drains scheduled"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)
        from props.identity import serial_queues
        serial_queues(ctx)
