"""Groups: rounds of operations counted by chained consumables."""
from props import Spec
from props.common import *
from props.sync import BARRIER, MAXMS, true_possible, false_possible

CONSUMABLE = "xdispatch::naive::consumable"
GROUP = "xdispatch::naive::group_impl"
IGROUP = "xdispatch::igroup_impl"


class ConsumableMonitor(Monitor):
    """resources: the number of operations not completed; zero is final"""

    def __init__(self, f, kind, res, prec):
        self.f = f
        self.kind = kind
        self.res = res
        self.prec = prec

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["n"] = 0
        g["old"] = None
        g["zero"] = ()
        g["done"] = 0
        g["pend"] = None
        g["ok"] = None        # result of the wait for the chain
        g["own"] = None

    def is_res(self, p):
        return is_ptr(p) and p[2] == self.res

    def event(self, eng, st, kind, *a):
        g = st.ghost
        k = self.kind
        if kind == "ALOAD" and self.is_res(a[0]):
            if a[2] in ("relaxed", "consume"):
                return eng.violate(st, "completion of a round is read without acquire ordering")
            p = g["pend"]
            g["zero"] = tuple([z for z in g["zero"] if z[0] != a[0][1] and (z[0] == THIS or is_ptr(p) and p[1] == z[0])]) \
                + ((a[0][1], a[1]),)
            return
        if kind == "ASTORE" and self.is_res(a[0]) and k != "ctor":
            return eng.violate(st, "number of operations of a round overwritten")
        if kind == "CAS" and self.is_res(a[0]) and a[0][1] == THIS:
            ptr, exp, new, ok, weak, cur, orders = a
            if not ok:
                g["zero"] = tuple([z for z in g["zero"] if z[0] != THIS]) + ((THIS, cur),)
                return
            if k == "add":
                if eng.cmp_truth(st, "eq", exp, 0) is not False:
                    return eng.violate(st, "an operation is added to a completed round")
                if new != plus(exp, 1):
                    return eng.violate(st, "adding an operation to a round does not count it once")
                g["n"] += 1
                self.count("operations counted")
                if g["n"] > 1:
                    return eng.violate(st, "adding an operation to a round counts it twice")
                return
            if k == "consume":
                if new != plus(exp, -1):
                    return eng.violate(st, "completing an operation does not count it once")
                return self.consumed(eng, st, exp, orders[0])
            return eng.violate(st, "number of operations of a round changed unexpectedly")
        if kind == "RMW" and self.is_res(a[0]) and a[0][1] == THIS:
            ptr, op, val, old, new, order = a
            if k == "consume" and (op == "sub" and val == 1 or op == "add" and val in (-1, 2**64 - 1)):
                return self.consumed(eng, st, old, order)
            if k == "add":
                return eng.violate(st, "an operation is added without testing if the round is completed")
            return eng.violate(st, "number of operations of a round changed unexpectedly")
        if kind == "CALL":
            if a[0] == BARRIER + "::complete":
                if g["old"] is None or eng.cmp_truth(st, "eq", g["old"], 1) is not True:
                    return eng.violate(st, "a round is completed by another than its last operation")
                g["done"] += 1
                self.count("completions")
            return
        if kind == "BWAIT":
            if not (is_ptr(a[0]) and a[0][1] == THIS):
                return eng.violate(st, "waits for the barrier of another round")
            if not same_timeout(eng, st, a[1], g.get("timeout")):
                return eng.violate(st, "a round is not waited for with the timeout requested")
            g["own"] = a[2]
            self.count("waits for the barrier")
            return
        if kind == "CWAIT":
            if g["pend"] is None or not same(eng, st, a[0], g["pend"]):
                return eng.violate(st, "waits for something else than the preceeding round")
            if not same_timeout(eng, st, a[1], g.get("timeout")):
                return eng.violate(st, "the preceeding round is not waited for with the timeout requested")
            g["ok"] = a[2]
            self.count("waits for preceeding rounds")
            return
        if kind == "SPLOAD" and is_ptr(a[0]) and a[0][2] == self.prec and k == "wait":
            o = a[0][1]
            if o == THIS:
                g["pend"] = a[1]
                g["ok"] = None
                return
            if is_ptr(g["pend"]) and g["pend"][1] == o:
                z = dict(g["zero"]).get(o)
                if z is None or eng.cmp_truth(st, "eq", z, 0) is not True:
                    return eng.violate(st, "a preceeding round is skipped though it is not completed")
                g["pend"] = a[1]
                g["ok"] = None
                g["zero"] = tuple([z for z in g["zero"] if z[0] == THIS])
                self.count("completed rounds skipped")
            return
        if kind in ("SPSTORE", "SPXCHG", "SPCAS") and is_ptr(a[0]) and a[0][2] == self.prec and k != "ctor":
            if a[0][1] != THIS:
                return eng.violate(st, "predecessor of another round is changed")
            new = a[1] if kind != "SPCAS" else a[2]
            p = g["pend"]
            if new != p and not (is_ptr(new) and is_ptr(p) and same(eng, st, new, p)) \
                    and not (g["ok"] == 1 and null(eng, st, new) is True):
                if not (null(eng, st, new) is True and null(eng, st, p) is True):
                    return eng.violate(st, "predecessor of a round replaced by something else than the next "
                                           "round not completed")
            return
        if kind == "TERMINATE":
            return
        if kind == "NULLDEREF":
            return eng.violate(st, "a round uses a null pointer")
        if kind == "RETURN":
            return self.returned(eng, st, a[0] if a else None)

    def consumed(self, eng, st, old, order):
        g = st.ghost
        if g["old"] is not None:
            return eng.violate(st, "completing an operation counts it twice")
        if order not in ("seq_cst", "acq_rel"):
            return eng.violate(st, "completion of an operation is not published with acquire and release ordering")
        g["old"] = old
        self.count("operations completed")

    def returned(self, eng, st, v):
        g = st.ghost
        k = self.kind
        self.count("results checked")
        if k == "add":
            if true_possible(eng, st, v) and g["n"] != 1:
                return eng.violate(st, "an operation is reported to be added but not counted")
            if false_possible(eng, st, v):
                if g["n"]:
                    return eng.violate(st, "an operation is counted but reported as not added")
                z = dict(g["zero"]).get(THIS)
                if z is None or eng.cmp_truth(st, "eq", z, 0) is not True:
                    return eng.violate(st, "an operation is rejected by a round not completed")
        elif k == "consume":
            if g["old"] is None:
                return eng.violate(st, "completing an operation does not count it")
            r = eng.cmp_truth(st, "eq", g["old"], 1)
            if r is not False and g["done"] != 1:
                return eng.violate(st, "the last operation does not complete its round")
        elif k == "wait":
            if true_possible(eng, st, v):
                z = dict(g["zero"]).get(THIS)
                own = g["own"] == 1 or z is not None and eng.cmp_truth(st, "eq", z, 0) is True
                if not own:
                    return eng.violate(st, "waiting reports a round to be completed which is not")
                p = g["pend"]
                if p is None:
                    return eng.violate(st, "waiting does not consider preceeding rounds")
                if null(eng, st, p) is not True and g["ok"] != 1 and not (is_ptr(p) and p[1] == THIS):
                    return eng.violate(st, "waiting does not wait for preceeding rounds")
            if false_possible(eng, st, v) and g["own"] != 0 and g["ok"] != 0:
                return eng.violate(st, "waiting for a round fails though nothing timed out")
        elif k == "ctor":
            m = st.mem.get(THIS, {})
            r, p = m.get(self.res), m.get(self.prec)
            a = g["args"]
            if r is None or r[0] != a[0]:
                return eng.violate(st, "a new round does not start with the number of operations requested")
            if p is None or p[0] != a[1] and not same(eng, st, p[0], a[1]):
                return eng.violate(st, "a new round is not linked to the preceeding one")


def plus(v, d):
    if isinstance(v, int):
        return v + d
    if v[0] == "+":
        return ("+", v[1], v[2] + d) if v[2] + d else v[1]
    return ("+", v, d)


def same_timeout(eng, st, t, want):
    if want is None:
        return True
    if t == want:
        return True
    return eng.cmp_truth(st, "eq", t, want) is True


def wait_model(event, n=2):
    """a wait reporting either result, only true when waiting without limit"""
    def model(eng, st, c, a):
        t = a[1] if len(a) > 1 else -1

        def one(v):
            def fn(s):
                eng.emit(s, event, a[0], t, v)
                return "DEAD" if s.dead else v
            return fn
        lo, hi = span(eng, st, t)
        eng.escape(st, a[0])
        eng.havoc(st, "blocking")
        if hi < 0 or lo == MAXMS:
            return eng.fork(st, c, [one(1)])
        return eng.fork(st, c, [one(1), one(0)])
    return model


def consumable_layout(ctx):
    p = ctx.p
    t = ctx.cls(CONSUMABLE)
    res = [off for n, off, tid in t.members if "atomic<" in p.types[p.canon(tid)].name]
    prec = [off for n, off, tid in t.members if "shared_ptr<" in p.types[p.canon(tid)].name]
    if len(res) != 1 or len(prec) != 1:
        raise Broken("layout of consumable not recognised")
    return res[0], prec[0]


def consumable_jobs(ctx):
    """the contract of consumables used by groups and apply"""
    p = ctx.p
    res, prec = consumable_layout(ctx)
    kinds = {"add_resource": "add", "consume_resource": "consume", "wait_for_consumed": "wait"}
    seen = set()
    extra = {BARRIER + "::wait": wait_model("BWAIT"), CONSUMABLE + "::wait_for_consumed": wait_model("CWAIT")}

    def setup(eng, st, f, a):
        if f.base == "wait_for_consumed":
            st.ghost["timeout"] = a[1]
        if f.ctor:
            pre = deref(eng, st, a[2]) if len(a) > 2 else 0
            st.ghost["args"] = (a[1] if len(a) > 1 else 0, pre)

    def arely(eng, st, ptr, old, new):
        # nothing is added to a completed round
        if ptr[2] == res and old is not None and eng.cmp_truth(st, "eq", old, 0) is True:
            eng.assume_cmp(st, "eq", new, 0)
    for f in ctx.methods(CONSUMABLE):
        if f.ctor and ("~" in f.base or copyish(ctx, f)):
            continue
        k = "ctor" if f.ctor else kinds.get(f.base)
        if k is None:
            continue
        seen.add(k)
        ctx.job(f, lambda f=f, k=k: ConsumableMonitor(f, k, res, prec), setup=setup, label=f.dem, arely=arely,
                models=lambda: Models(extra), opaque=(BARRIER + "::complete",))
    for k in ("ctor", "add", "consume", "wait"):
        if k not in seen:
            raise Broken("function of consumable vanished (%s)" % k)


# ---------------------------------------------------------------------- group
def m_add(eng, st, c, a):
    def one(v):
        def fn(s):
            eng.emit(s, "ADDRES", a[0], v)
            return "DEAD" if s.dead else v
        return fn
    return eng.fork(st, c, [one(1), one(0)])


def m_consume(eng, st, c, a):
    eng.emit(st, "CONSUME", a[0])
    if st.dead:
        return False
    return eng.ret(st, c, None)


def m_newc(eng, st, c, a):
    pre = deref(eng, st, a[2]) if len(a) > 2 else 0
    eng.emit(st, "NEWC", a[0], a[1] if len(a) > 1 else 0, pre)
    if st.dead:
        return False
    return eng.ret(st, c, None)


GROUP_MODELS = {
    CONSUMABLE + "::add_resource": m_add,
    CONSUMABLE + "::consume_resource": m_consume,
    CONSUMABLE + "::wait_for_consumed": wait_model("CWAIT"),
    CONSUMABLE + "::consumable": m_newc,
}


class GroupMonitor(Monitor):
    def __init__(self, f, kind, cur, p04=True):
        self.f = f
        self.kind = kind
        self.cur = cur
        self.p04 = p04

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["phase"] = "api"
        g["loaded"] = None
        g["added"] = None
        g["sent"] = 0
        g["ran"] = 0
        g["run"] = 0
        g["cons"] = 0
        g["news"] = ()
        g["old"] = None
        g["res"] = None
        g["async"] = 0
        g["init"] = None

    def mine(self, p):
        return is_ptr(p) and p[1] == THIS and p[2] == self.cur

    def event(self, eng, st, kind, *a):
        g = st.ghost
        k = self.kind
        if kind == "CONT":
            g["phase"] = "op"
            self.count("operations handed over")
            return
        if kind == "SPLOAD" and self.mine(a[0]):
            g["loaded"] = a[1]
            return
        if kind == "NEWC":
            g["news"] = ((a[0], a[1], a[2]),)
            return
        if kind == "SPCAS" and self.mine(a[0]):
            ptr, old, new, ok = a[0], a[1], a[2], a[3]
            if not ok:
                return
            if g["old"] is not None:
                return eng.violate(st, "waiting for a group starts two rounds")
            nc = [x for x in g["news"] if is_ptr(new) and x[0][1] == new[1]]
            if not nc:
                return eng.violate(st, "waiting for a group does not start a new round")
            if nc[0][1] != 1:
                return eng.violate(st, "a new round may complete before being waited for")
            if not same(eng, st, nc[0][2], old):
                return eng.violate(st, "the new round of a group does not include the preceeding one")
            g["old"] = old
            self.count("rounds started")
            return
        if kind in ("SPSTORE", "SPXCHG") and self.mine(a[0]) and k != "ctor":
            return eng.violate(st, "the round of a group is replaced without regarding concurrent replacements")
        if kind == "ADDRES":
            if k not in ("async",) or g["phase"] != "api":
                return eng.violate(st, "group counts operations it does not submit")
            if not (is_ptr(a[0]) and is_ptr(g["loaded"]) and same(eng, st, a[0], g["loaded"])):
                return eng.violate(st, "operation counted for another round than the current one")
            if a[1]:
                if g["added"] is not None:
                    return eng.violate(st, "operation of a group counted twice")
                g["added"] = a[0]
                self.count("operations added")
            return
        if kind == "CONSUME":
            if k == "async":
                if g["phase"] != "op":
                    return eng.violate(st, "operation of a group counted as completed before having run")
                if g["ran"] != 1 or g["run"]:
                    return eng.violate(st, "operation of a group counted as completed before having run")
                if g["added"] is None or not same(eng, st, a[0], g["added"]):
                    return eng.violate(st, "operation completed for another round than the one it had been added to")
            else:
                if g["old"] is None:
                    return eng.violate(st, "the round is closed before being replaced by a new one")
                if not same(eng, st, a[0], g["old"]):
                    return eng.violate(st, "waiting for a group closes another round than the one replaced")
                if g["res"] is not None:
                    return eng.violate(st, "the round is closed after waiting for it")
            g["cons"] += 1
            self.count("completions")
            if g["cons"] > 1:
                return eng.violate(st, "operation of a group counted as completed twice" if k == "async" else
                                   "round of a group closed twice")
            return
        if kind == "CWAIT":
            if g["old"] is None or not same(eng, st, a[0], g["old"]):
                return eng.violate(st, "waiting for a group waits for another round than the one replaced")
            if g["cons"] != 1:
                return eng.violate(st, "waiting for a round which is not closed")
            if k == "wait" and not same_timeout(eng, st, a[1], g.get("timeout")):
                return eng.violate(st, "a group is not waited for with the timeout requested")
            if k == "notify":
                lo, hi = span(eng, st, a[1])
                if not (hi < 0 or lo == MAXMS):
                    return eng.violate(st, "a notification waits for its group for a limited time only")
            g["res"] = a[2]
            self.count("waits for rounds")
            return
        if kind == "EXEC":
            if k != "async" or g["phase"] != "op":
                return eng.violate(st, "operation of a group executed on the calling thread")
            if not same(eng, st, a[0], g["op"]):
                return eng.violate(st, "a group executes something else than the operation added")
            g["ran"] += 1
            g["run"] = 1
            self.count("operations executed")
            if g["ran"] > 1:
                return eng.violate(st, "operation of a group executed twice")
            return
        if kind == "EXECRET":
            g["run"] = 0
            return
        if kind == "VCALL" and a[0] == QUEUE_IMPL and a[1] in ("async", "after", "apply"):
            return self.queued(eng, st, a)
        if kind == "VCALL" and a[0] == THREADPOOL and a[1] == "execute":
            if k != "notify":
                return eng.violate(st, "operation of a group is handed to the pool instead of the queue requested")
            op = deref(eng, st, a[3])
            if same(eng, st, op, g["op"]):
                return eng.violate(st, "a notification is executed without waiting for the group")
            return self.hand(eng, st, op)
        if kind == "NULLDEREF":
            return eng.violate(st, "a group uses a null pointer")
        if kind == "RETURN":
            return self.returned(eng, st, a[0] if a else None)

    def hand(self, eng, st, op):
        g = st.ghost
        g["sent"] += 1
        if g["sent"] > 1:
            return eng.violate(st, "operation of a group is handed over twice")
        if eng.models.op_function(eng, st, op) is None:
            return eng.violate(st, "operation of a group is handed over without tracking its completion")
        st.conts = (("exec", op, "op"),)

    def queued(self, eng, st, a):
        g = st.ghost
        k = self.kind
        if a[1] != "async":
            return eng.violate(st, "operation of a group is not submitted by async()")
        if not same(eng, st, a[2], g["queue"]):
            return eng.violate(st, "operation of a group is submitted to another queue than requested")
        op = deref(eng, st, a[3])
        if k == "async" and g["phase"] == "api":
            if g["added"] is None:
                return eng.violate(st, "operation of a group is submitted before being counted")
            return self.hand(eng, st, op)
        if k == "notify":
            if not same(eng, st, op, g["op"]):
                return eng.violate(st, "notification submits something else than the operation requested")
            if g["res"] != 1:
                return eng.violate(st, "notification submitted before its group completed")
            g["async"] += 1
            self.count("notifications")
            if g["async"] > 1:
                return eng.violate(st, "notification of a group submitted twice")
            return
        return eng.violate(st, "group submits an operation unexpectedly")

    def returned(self, eng, st, v):
        g = st.ghost
        k = self.kind
        if k == "ctor":
            nc = g["news"]
            m = st.mem.get(THIS, {}).get(self.cur)
            if len(nc) != 1 or m is None or not is_ptr(m[0]) or m[0][1] != nc[0][0][1]:
                return eng.violate(st, "a new group has no round")
            if nc[0][1] != 1:
                return eng.violate(st, "a new round may complete before being waited for")
            if null(eng, st, nc[0][2]) is not True:
                return eng.violate(st, "the first round of a group has a predecessor")
            self.count("groups created")
            return
        if g["phase"] == "api":
            if k == "async" and g["sent"] != 1:
                return eng.violate(st, "operation of a group is not submitted")
            if k == "notify" and not g["sent"] and not g["async"]:
                return eng.violate(st, "notification of a group is lost")
            if k == "wait":
                self.count("results checked")
                if g["res"] is None:
                    return eng.violate(st, "waiting for a group does not wait")
                r = eng.cmp_truth(st, "ne", v, 0)
                if r is not bool(g["res"]):
                    return eng.violate(st, "waiting for a group does not report the result")
            return
        if k == "async":
            if g["ran"] != 1:
                return eng.violate(st, "operation of a group is not executed")
            if g["cons"] != 1:
                return eng.violate(st, "completed operation of a group is not counted as completed")
        elif k == "notify":
            if g["async"] != 1:
                return eng.violate(st, "notification of a group is lost")


class ForwardMonitor(Monitor):
    """a public function hands its arguments to the implementation once"""

    def __init__(self, f, cname, meth, what, result=False):
        self.f = f
        self.cname = cname
        self.meth = meth
        self.what = what
        self.result = result

    def start(self, eng, st):
        st.ghost["n"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "VCALL" and a[0] == self.cname:
            if a[1] == self.meth:
                g["n"] += 1
                g["ret"] = None
                self.facts["calls forwarded"] = self.facts.get("calls forwarded", 0) + 1
                if g["n"] > 1:
                    return eng.violate(st, "%s is forwarded twice" % self.what)
                for i, want in enumerate(g["want"]):
                    if want is None or 3 + i >= len(a):
                        continue
                    have = a[3 + i]
                    if is_ptr(have) and not (have == want):
                        have = deref(eng, st, have)
                    if have != want and not same(eng, st, have, want) and \
                            eng.cmp_truth(st, "eq", have, want) is not True:
                        return eng.violate(st, "%s is forwarded with other arguments than passed" % self.what)
        elif kind == "RETURN":
            if g["n"] != 1:
                return eng.violate(st, "%s is not forwarded" % self.what)


def forward_job(ctx, f, cname, meth, what, kinds, queue=None):
    """kinds: per argument of the implementation, how it is found in the
    arguments of the public function: ("sp", i) pointee of a shared pointer, ("val", i), ("impl", i) implementation
    of a queue, None not compared"""
    p = ctx.p

    def setup(eng, st, f, a):
        w = []
        for k in kinds:
            if k is None:
                w.append(None)
            elif k[0] == "sp":
                w.append(deref(eng, st, a[k[1]]))
            elif k[0] == "val":
                w.append(a[k[1]])
            elif k[0] == "impl":
                w.append(deref(eng, st, ("p", a[k[1]][1], a[k[1]][2] + k[2])))
        st.ghost["want"] = tuple(w)
        if w and is_ptr(w[0]):
            eng.assume_cmp(st, "ne", w[0], 0)
    ctx.job(f, lambda: ForwardMonitor(f, cname, meth, what), setup=setup, label=f.dem)


def group_jobs(ctx, kinds):
    p = ctx.p
    t = ctx.cls(GROUP)
    cur = [off for n, off, tid in t.members if "shared_ptr<xdispatch::naive::consumable" in p.types[p.canon(tid)].name
           or "consumable_ptr" in n]
    if len(cur) != 1:
        raise Broken("round of a group not recognised")
    cur = cur[0]
    by = {}
    for f in ctx.methods(GROUP):
        if not f.ctor:
            by.setdefault(f.base, f)
    for n in ("async", "wait", "notify"):
        if n not in by:
            raise Broken("group_impl::%s vanished" % n)

    def setup(eng, st, f, a):
        g = st.ghost
        # the round always exists
        if not f.ctor:
            m = eng.load(st, ("p", THIS, cur), 8, "p")
            eng.assume_cmp(st, "ne", m, 0)
        g = st.ghost
        if f.base in ("async", "notify"):
            op, q = deref(eng, st, a[1]), deref(eng, st, a[2])
            eng.assume_cmp(st, "ne", op, 0)
            eng.assume_cmp(st, "ne", q, 0)
            g = st.ghost
            g["op"], g["queue"] = op, q
        if f.base == "wait":
            g["timeout"] = a[1]

    def arely(eng, st, ptr, old, new):
        if ptr[1] == THIS and ptr[2] == cur:
            eng.assume_cmp(st, "ne", new, 0)
    todo = [(by[k], k) for k in kinds if k in by]
    if "ctor" in kinds:
        todo += [(c, "ctor") for c in ctors(ctx, GROUP)]
    for f, k in todo:
        ctx.job(f, lambda f=f, k=k: GroupMonitor(f, k, cur), setup=setup, label=f.dem, arely=arely,
                models=lambda: Models(GROUP_MODELS))


def api_forward(ctx, names):
    """group::async, notify, wait"""
    p = ctx.p
    qoff = 0
    n = 0
    for f in ctx.methods("xdispatch::group"):
        if f.base not in names or f.artificial:
            continue
        di = [p.types[p.canon(x)].name if p.canon(x) >= 0 else "" for x in f.di[1:]]
        if f.base == "wait":
            n += 1
            forward_job(ctx, f, IGROUP, "wait", "waiting for a group", [("val", 1)])
            continue
        # only the functions taking an operation and a queue
        arg = [p.strip_ref(x) for x in f.di[1:]] if hasattr(p, "strip_ref") else None
        names_ = f.dem[f.dem.rfind("::" + f.base) + 2:]
        if "shared_ptr<xdispatch::operation>" in names_ and "xdispatch::queue const&" in names_:
            n += 1
            forward_job(ctx, f, IGROUP, f.base, "an operation of a group", [("sp", 1), None])
    if n < len(names):
        raise Broken("public functions of groups vanished")


class P04(Spec):
    id = "P04"
    requires = ('P14',)
    explanation = (
        "Abstract interpretation of the group's functions with typestate automata for the round (consumable) and the "
        "group: counting before submission, completion after the execution (the operation handed over is analysed as "
        "continuation), replacement of the round by compare exchange chained to its predecessor, results backed by "
        "the observed completion of the round and all preceeding ones.")
    rules = (
        "an operation is counted in the current round before it is submitted and uncounted once after it ran",
        "a completed round accepts no operation; it completes exactly by the step from one to zero",
        "wait replaces the round by one including its predecessor, closes it once, then waits for it with the timeout given",
        "true only if the round and all preceeding ones are completed, false only if a wait timed out",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "barriers work as decided by P14, queues execute operations once as decided by P02",
        "std::atomic_* functions on shared_ptr are atomic",
    ]

    def check(self, ctx):
        consumable_jobs(ctx)
        group_jobs(ctx, ("ctor", "async", "wait"))
        api_forward(ctx, ("async", "wait"))
        ctx.run()
        for what in ("operations counted", "completions", "rounds started", "waits for rounds", "operations executed",
                     "waits for preceeding rounds", "completed rounds skipped", "groups created", "calls forwarded"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)


class P05(Spec):
    id = "P05"
    requires = ('P14',)
    explanation = (
        "Abstract interpretation of the registration of notifications and, as continuation, of the operation executed "
        "later: it closes the round, waits for it without limit and then submits the operation given exactly once to "
        "the queue given. The round itself is decided as for P04.")
    rules = (
        "registering hands exactly one operation to the pool on every path",
        "that operation waits without limit for the closed round and its predecessors, then submits the notification "
        "once to the requested queue",
        "it shares the ownership of the group",
    )
    assumptions = P04.assumptions + ["the pool executes each operation once as decided by P02"]

    def check(self, ctx):
        consumable_jobs(ctx)
        group_jobs(ctx, ("notify", "wait", "ctor"))
        api_forward(ctx, ("notify",))
        ctx.run()
        for what in ("notifications", "rounds started", "waits for rounds", "operations handed over", "calls forwarded"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)
