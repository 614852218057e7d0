"""Signals, connections and signal barriers."""
import itertools

from props import Spec
from props.common import *
from core import Broken

SIGNAL_P = "xdispatch::signal_p"
HANDLER = "xdispatch::signal_p::connection_handler"
SIGNAL = "xdispatch::signal<"
CONNECTION = "xdispatch::connection"
SCOPED = "xdispatch::scoped_connection"
MANAGER = "xdispatch::connection_manager"
CANCELABLE = "xdispatch::cancelable"
GROUP = "xdispatch::group"
GROUP_IMPL = "xdispatch::igroup_impl"
BARRIER = "xdispatch::lightweight_barrier"
MODE = "xdispatch::notification_mode"


class Layout:
    """what is known of the classes involved, by the types of their members"""

    def __init__(self, ctx):
        p = self.p = ctx.p
        t = ctx.cls(SIGNAL_P)
        lists = [off for n, off, tid in t.members if p.canon(tid) >= 0 and
                 "connection_handler" in p.types[p.canon(tid)].name and "<" in p.types[p.canon(tid)].name]
        if len(lists) != 1:
            raise Broken("list of connections not recognised")
        self.list = lists[0]
        groups = [off for n, off, tid in t.members if p.canon(tid) >= 0 and
                  "xdispatch::group" in p.types[p.canon(tid)].name]
        self.group = groups[0] if len(groups) == 1 else None
        h = ctx.cls(HANDLER)
        modes = [(n, off) for n, off, tid in h.members if p.canon(tid) >= 0 and p.types[p.canon(tid)].name == MODE]
        if len(modes) != 1:
            raise Broken("mode of a connection not recognised")
        self.mode = modes[0][1]
        e = p.types[p.canon([tid for n, off, tid in h.members if off == self.mode][0])]
        self.modes = {n: v for n, v in e.enumerators}
        if not {"batch_updates", "single_updates", "_synchronous_update"} <= set(self.modes):
            raise Broken("notification modes changed")
        qs = member_offsets(p, h.id, lambda n: n == "xdispatch::queue")
        if len(qs) != 1:
            raise Broken("queue of a connection not recognised")
        self.hqueue = qs[0][0]
        q = p.by_name.get("xdispatch::queue")
        impl = [off for n, off, tid in q.members if QUEUE_IMPL in p.types[p.canon(tid)].name]
        if len(impl) != 1:
            raise Broken("implementation of a queue not recognised")
        self.qimpl = impl[0]
        g = p.by_name.get(GROUP)
        impl = [off for n, off, tid in g.members if GROUP_IMPL in p.types[p.canon(tid)].name]
        if len(impl) != 1:
            raise Broken("implementation of a group not recognised")
        self.gimpl = impl[0]


def c_enter(eng, st, c, a):
    v = 0 if st.ghost.get("dis") else 1
    eng.emit(st, "ENTER", v, a[0])
    if st.dead:
        return False
    return eng.ret(st, c, v)


def c_leave(eng, st, c, a):
    eng.emit(st, "LEAVE", a[0])
    if st.dead:
        return False
    return eng.ret(st, c, None)


def c_disable(eng, st, c, a):
    eng.emit(st, "DISABLE", a[0])
    if st.dead:
        return False
    st.ghost["dis"] = 1
    return eng.ret(st, c, None)


def c_disabled(eng, st, c, a):
    return eng.ret(st, c, 1 if st.ghost.get("dis") else 0)


def v_copy(eng, st, c, a):
    """copy of a value of the user, remembers where it came from"""
    if "orig" not in st.ghost:
        return eng.ret(st, c, None)
    o = dict(st.ghost["orig"])
    o[a[0][1:]] = o.get(a[1][1:]) if is_ptr(a[1]) else None
    st.ghost["orig"] = tuple(sorted(o.items(), key=str))
    return eng.ret(st, c, None)


def v_dtor(eng, st, c, a):
    return eng.ret(st, c, None)


CANCEL_MODELS = {
    CANCELABLE + "::enter": c_enter, CANCELABLE + "::leave": c_leave, CANCELABLE + "::disable": c_disable,
    CANCELABLE + "::is_disabled": c_disabled,
    "xdispatch::trace_utils::assert_same_backend": v_dtor,
    "user_value::user_value": v_copy, "user_value::~user_value": v_dtor, "user_value::operator=": v_copy,
}


def any_enter(eng, st, c, a):
    """whether a handler is still enabled is not known"""
    def enter(v):
        def do(s):
            eng.emit(s, "ENTER", v, a[0])
            return v
        return do
    return eng.fork(st, c, [enter(0), enter(1)])


ANY_CANCEL_MODELS = dict(CANCEL_MODELS)
ANY_CANCEL_MODELS[CANCELABLE + "::enter"] = any_enter


def nested_done(eng, st, c, tag):
    eng.mon.stage_end(eng, st, None)
    if st.dead:
        return False
    eng.emit(st, "EXECRET")
    return eng.ret(st, c, None)


def injected_done(eng, st, c, tag):
    """one of two threads is through, go on with the other one"""
    st.ghost["held"] = ()
    st.ghost["both"] = 0
    eng.mon.stage_end(eng, st, eng.nested_value)
    return not st.dead


class ScenarioModels(Models):
    """user code may use the signal while being called"""

    def user_call(self, eng, st, c, a):
        n = st.ghost.get("nest")
        if n:
            st.ghost["nest"] = None
            f, args = eng.mon.prepare(eng, st, n)
            eng.push_frame(st, f, list(args), c, tag=("then", "nested", nested_done, c.dst))
            return not st.dead
        eng.emit(st, "EXECRET")
        if st.dead:
            return False
        return eng.ret(st, c, eng.result(st, c, a))


SECOND = ("S#", ("second",), 0)


class Scenario(Monitor):
    """one connection, used in a sequence of calls without interference

    R raise, X execute the oldest operation scheduled, D disconnect, K skip
    what is pending; a letter in brackets after X happens within the handler,
    one after a slash is done by another thread at any of the atomic accesses,
    x executes an operation if there is one"""

    def __init__(self, lay, fns, script, mode, group, kind):
        self.lay = lay
        self.fns = fns
        self.script = script
        self.mode = mode
        self.group = group
        self.kind = kind        # argument of the signal
        self.letters = "".join(script)
        self.wants_mem = "~" in self.letters
        self.injects = "/" in self.letters

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    # ------------------------------------------------------------- spec
    def start(self, eng, st):
        g = st.ghost
        g["i"] = -1
        g["stk"] = (("C", 0, 0, None),)     # stage, submissions, calls, number
        g["ops"] = ()                       # scheduled and not yet executed: (operation, emission)
        g["n"] = 0                          # emissions
        g["skipped"] = 0                    # emissions before this one were skipped
        g["con"] = 0
        g["dis"] = 0
        g["in"] = 0
        g["ins"] = 0
        g["rem"] = 0
        g["vals"] = ()
        g["orig"] = ()
        g["elem"] = None
        g["nest"] = None
        g["gone"] = 0
        g["inj"] = None         # what another thread is about to do during this step
        g["par"] = 0            # it did so
        g["both"] = 0           # both of them are under way
        g["held"] = ()          # locks held by the thread not running
        g["late"] = 0           # and the handler had been called before
        g["lists"] = (("p", THIS, self.lay.list),)

    def top(self, st):
        return st.ghost["stk"][-1]

    def settop(self, st, t):
        st.ghost["stk"] = st.ghost["stk"][:-1] + (t,)

    def prepare(self, eng, st, op):
        """function and arguments for a step of the script"""
        g = st.ghost
        if op == "R":
            k = g["n"]
            g["n"] = k + 1
            args = [("p", THIS, 0)]
            f = self.fns["raise"]
            if self.kind == "int":
                v = eng.new(st, "y#", ("value", k))
                args.append(v)
                g["vals"] += (v,)
            elif self.kind == "value":
                o = ("A#", 0, "raised%d" % k)
                st.mem[o] = {}
                args.append(("p", o, 0))
                d = dict(g["orig"])
                d[(o, 0)] = k
                g["orig"] = tuple(sorted(d.items(), key=str))
                g["vals"] += (k,)
            else:
                g["vals"] += (None,)
            g["stk"] += (("R", 0, 0, k),)
            return f, args
        if op in ("D", "d"):
            h = self.conn if op == "D" else SECOND
            g["stk"] += (("D", 0, 0, h),)
            if not g["con"] and not g["ops"] and len(g["stk"]) == 1 and g["elem"] is not None:
                # nobody owns the handler any longer
                pi = g["elem"][1]
                if is_ptr(pi) and 8 in st.mem.get(pi[1], {}):
                    st.mem[pi[1]][8] = (0, 4)
            return self.fns["disconnect"], [("p", h, 0)]
        if op == "~":
            g["stk"] += (("~", 0, 0, None),)
            return self.fns["destroy"], [("p", THIS, 0)]
        if op == "K":
            g["stk"] += (("K", 0, 0, None),)
            return self.fns["skip"], [("p", THIS, 0)]
        raise Broken("script " + op)

    def step(self, eng, st):
        g = st.ghost
        g["i"] += 1
        i = g["i"]
        if i >= len(self.script):
            return
        op = self.script[i]
        g["inj"] = op[2] if op[1:2] == "/" else None
        g["par"] = g["both"] = g["late"] = 0
        g["held"] = ()
        if op == "x" and not g["ops"]:
            return self.step(eng, st)
        if op[0] in "Xx":
            if not g["ops"]:
                raise Broken("scenario executes an operation which was not scheduled")
            o, k = g["ops"][0]
            g["ops"] = g["ops"][1:]
            g["stk"] = (("X", 0, 0, k),)
            g["nest"] = op[2] if op[1:2] == "[" else None
            st.conts = (("exec", o, "op"),)
            return
        g["stk"] = ()
        f, args = self.prepare(eng, st, op[0])
        st.conts = (("call", f.name, tuple(args)),)

    def inject(self, eng, st):
        """another thread may run now"""
        g = st.ghost
        if g["both"]:
            return self.switch(eng, st)
        what = g["inj"]
        if not what or g["par"] or len(g["stk"]) != 1 or g["i"] < 0:
            return False
        if what == "X" and not g["ops"]:
            return False
        s2 = st.copy()
        g = s2.ghost
        g["par"] = g["both"] = 1
        g["late"] = self.top(s2)[2]
        if what == "X":
            o, k = g["ops"][0]
            g["ops"] = g["ops"][1:]
            g["stk"] += (("X", 0, 0, k),)
            g["alive"] = g["con"]
            g["skip0"] = g["skipped"]
            f, args = eng.models.op_function(eng, s2, o), [o]
        else:
            f, args = self.prepare(eng, s2, what)
        g["held"] = s2.locks
        g["low"] = len(s2.frames)
        s2.locks = ()
        s2.frames[0].tag = ("then", "nested", injected_done, -1)
        eng.push_frame(s2, f, list(args), None, tag=("then", "nested", injected_done, -1))
        eng.push(s2)
        return False

    def switch(self, eng, st):
        """the threads may take turns a few times"""
        if st.ghost["par"] > 2 or len(st.ghost["stk"]) != 2:
            return False
        s2 = st.copy()
        g = s2.ghost
        g["par"] += 1
        n = g["low"]
        s2.frames = s2.frames[n:] + s2.frames[:n]
        g["low"] = len(s2.frames) - n
        g["held"], s2.locks = s2.locks, g["held"]
        g["stk"] = (g["stk"][1], g["stk"][0])
        eng.push(s2)
        return False

    def stage_end(self, eng, st, v):
        g = st.ghost
        s, sub, call, k = self.top(st)
        g["stk"] = g["stk"][:-1]
        if g["in"] and not (g["stk"] and self.top(st)[0] in ("X", "R")):
            return eng.violate(st, "the invocation of a handler is not left")
        if s == "C":
            if g["ins"] != 1:
                return eng.violate(st, "connect does not add the connection to the list of its signal")
            g["con"] = 1
            self.count("connections made")
            if "d" in self.letters:
                # another handle of the same connection
                st.mem[SECOND] = dict(st.mem[self.conn])
                st.typ[SECOND] = st.typ[self.conn]
                g["second"] = ("p", SECOND, 0)
        elif s == "R":
            if self.mode == "_synchronous_update":
                want = (0, 1 if g["con"] else 0)
            elif self.mode == "single_updates":
                want = (1 if g["con"] else 0, 0)
            else:
                # those waiting for execution already which have not been skipped
                wait = [x for x in g["ops"] if x[1] != k and x[1] >= g["skipped"]]
                want = (1 if g["con"] and not wait else 0, 0)
                if g["par"] and g["con"] and not (g["late"] and not wait) and sub in (0, 1):
                    # it was pending for some time of the emission
                    want = (sub, 0)
            if sub < want[0]:
                return eng.violate(st, "an emission is not delivered to a connected handler")
            if sub > want[0]:
                return eng.violate(st, "an emission is scheduled %s" % (
                    "for a handler which is not to be called" if want[0] == 0 else "more than once"))
            if call < want[1]:
                return eng.violate(st, "an emission is not delivered to a connected handler")
            if call > want[1]:
                return eng.violate(st, "a handler is called by the thread raising the signal")
            self.count("emissions delivered", want[0] + want[1])
            if sub == 0 and call == 0:
                self.count("emissions not delivered")
        elif s == "X":
            if sub:
                return eng.violate(st, "an emission is scheduled again by its execution")
            want = 1 if g["alive"] and k >= g["skip0"] else 0
            if g["par"] and "K" in self.script[g["i"]] and g["alive"] and call in (0, 1):
                want = call
            if call < want:
                return eng.violate(st, "a handler is not called for an emission")
            if call > want:
                if not g["alive"]:
                    return eng.violate(st, "a handler is called after having been disconnected")
                return eng.violate(st, "a handler is called for an emission which was skipped")
            self.count("handlers called" if want else "handlers not called")
        elif s == "D":
            want = 1 if g["con"] else 0
            if v is not None and eng.cmp_truth(st, "eq", v, want) is not True:
                return eng.violate(st, "disconnect returns %s" % (
                    "false though there was a connection" if want else "true though there was no connection"))
            if want and not g["dis"]:
                return eng.violate(st, "a connection is not disabled by disconnecting it")
            if want and g["rem"] != 1:
                return eng.violate(st, "a connection is not removed from the list of its signal")
            if want:
                g["con"] = 0
                self.count("connections disconnected")
            # the handle is empty now
            m = st.mem.get(k, {})
            for off, e in m.items():
                if type(off) is int and is_ptr(e[0]):
                    return eng.violate(st, "a disconnected connection still refers to its signal or handler")
        elif s == "~":
            if g["con"] and not g["dis"]:
                return eng.violate(st, "a connection is not disabled by the destruction of its signal")
            g["con"] = 0
            g["gone"] = 1
            self.count("signals destroyed")
        elif s == "K":
            g["skipped"] = g["n"]
            self.count("skips")

    # ------------------------------------------------------------- events
    def event(self, eng, st, kind, *a):
        g = st.ghost
        if g["gone"] and a and is_ptr(a[0]) and a[0][1] == THIS and kind not in ("CONT", "RETURN", "RELEASE"):
            return eng.violate(st, "a signal is used after its destruction")
        if kind == "CONT":
            if self.top(st)[0] == "X":
                g["alive"] = g["con"]
                g["skip0"] = g["skipped"]
            return
        if kind == "RETURN":
            self.stage_end(eng, st, a[0])
            if not st.dead:
                self.step(eng, st)
            return
        if kind == "PRELOCK" and g["both"] and a[0] in g["held"]:
            st.dead = True      # blocked until the interrupted one goes on
            return
        if kind in ("TERMINATE", "UNWIND"):
            return eng.violate(st, "using a signal ends in an exception or assertion")
        if kind == "NULLDEREF":
            return eng.violate(st, "a null pointer is used")
        if kind == "CINSERT" and self.is_list(st, a[0]):
            if self.top(st)[0] != "C":
                return eng.violate(st, "a connection is added by something else than connect")
            g["ins"] += 1
            g["elem"] = (eng.load(st, ("p", a[3][1], 0), 8, "p"), eng.load(st, ("p", a[3][1], 8), 8, "p"))
            self.hold(st, g["elem"][1])
            return
        if kind in ("CITER", "CINDEX", "AVISIT") and self.is_list(st, a[0]):
            # one connection, each list is empty or holds just that one
            x = a[1] if kind == "CITER" else a[2]
            if g["elem"] is None or g["rem"] or kind == "CITER" and a[2] == "next" or \
                    kind == "CINDEX" and eng.cmp_truth(st, "eq", a[1], 0) is not True:
                st.dead = True
                return
            eng.store(st, ("p", x[1], 0), g["elem"][0], 8)
            eng.store(st, ("p", x[1], 8), g["elem"][1], 8)
            return
        if kind in ("CCOPY", "CMOVE", "CSWAP") and (self.is_list(st, a[1]) or self.is_list(st, a[0])):
            # whatever holds the connection
            g["lists"] = tuple(sorted(set(g["lists"]) | {a[0], a[1]}, key=str))
            return
        if kind in ("CCLEAR", "CDTOR") and self.is_list(st, a[0]):
            if a[0] != ("p", THIS, self.lay.list):
                g["lists"] = tuple(x for x in g["lists"] if x != a[0])
            elif self.top(st)[0] != "~":
                return eng.violate(st, "the connections of a signal are dropped")
            return
        if kind == "CREMOVED" and self.is_list(st, a[0]):
            if a[1] == "remove":
                if not same(eng, st, a[2], g["elem"][0]):
                    return eng.violate(st, "another connection is removed from the list of the signal")
            g["rem"] += 1
            self.empty_list(eng, st)
            return
        if kind == "CERASE" and self.is_list(st, a[0]):
            if not same(eng, st, a[1], g["elem"][0]):
                return eng.violate(st, "another connection is removed from the list of the signal")
            g["rem"] += 1
            self.empty_list(eng, st)
            return
        if kind == "CFIND" and self.is_list(st, a[0]):
            if bool(a[2]) != (same(eng, st, a[1], g["elem"][0]) and not g["rem"]):
                st.dead = True
            return
        if kind in ("ENTER", "LEAVE", "DISABLE"):
            if kind == "ENTER":
                g["in"] += a[0]
            elif kind == "LEAVE":
                g["in"] -= 1
                if g["in"] < 0:
                    return eng.violate(st, "the invocation of a handler is left without having been entered")
            return
        if kind == "VCALL":
            self.vcall(eng, st, a)
            return
        if kind == "UCALL":
            return self.ucall(eng, st, a)

    def hold(self, st, pi):
        """somebody else owns a reference from now on"""
        if is_ptr(pi) and 8 in st.mem.get(pi[1], {}):
            st.mem[pi[1]][8] = (1000, 4)

    def empty_list(self, eng, st):
        eng.models.setcont(eng, st, ("p", THIS, self.lay.list), [])

    def is_list(self, st, p):
        return p in st.ghost["lists"]

    def vcall(self, eng, st, a):
        g = st.ghost
        if a[0] == QUEUE_IMPL and a[1] in ("async", "after", "apply"):
            if a[1] != "async":
                return eng.violate(st, "a handler is not scheduled by async")
            if self.group:
                return eng.violate(st, "a handler is not scheduled using the group of the signal")
            if not (is_ptr(a[2]) and a[2][1] == self.Q[1]):
                return eng.violate(st, "a handler is scheduled on another queue than the one given at connection time")
            return self.submit(eng, st, a[3])
        if a[0] == GROUP_IMPL and a[1] in ("async", "notify"):
            if a[1] != "async":
                return eng.violate(st, "a handler is not scheduled by async")
            if not self.group:
                return eng.violate(st, "a handler is scheduled using an unknown group")
            if not (is_ptr(a[2]) and a[2][1] == self.G[1]):
                return eng.violate(st, "a handler is scheduled using another group than the one of the signal")
            if not same(eng, st, deref(eng, st, a[4]), self.Q):
                return eng.violate(st, "a handler is scheduled on another queue than the one given at connection time")
            return self.submit(eng, st, a[3])

    def submit(self, eng, st, ref):
        g = st.ghost
        op = deref(eng, st, ref)
        self.hold(st, eng.load(st, ("p", ref[1], ref[2] + 8), 8, "p") if is_ptr(ref) else None)
        s, sub, call, k = self.top(st)
        self.settop(st, (s, sub + 1, call, k))
        if s != "R":
            return eng.violate(st, "a handler is scheduled without the signal being raised")
        if eng.models.op_function(eng, st, op) is None:
            raise Broken("operation scheduled by a signal not recognised")
        g["ops"] += ((op, k),)
        self.count("operations scheduled")

    def ucall(self, eng, st, a):
        g = st.ghost
        s, sub, call, k = self.top(st)
        self.settop(st, (s, sub, call + 1, k))
        if s not in ("R", "X"):
            return eng.violate(st, "a handler is called without the signal being raised")
        if a[0] != self.fnid:
            return eng.violate(st, "another function than the handler connected is called")
        if g["in"] < 1:
            return eng.violate(st, "a handler is called outside of its cancelable scope")
        if call >= 1:
            return eng.violate(st, "a handler is called twice for an emission")
        args = a[2:]
        if self.kind == "int":
            v = args[0] if args else None
            if eng.cmp_truth(st, "eq", v, g["vals"][k]) is not True:
                return eng.violate(st, "a handler is called with other arguments than the signal was raised with")
        elif self.kind == "value":
            v = dict(g["orig"]).get(args[0][1:]) if args and is_ptr(args[0]) else None
            if v != g["vals"][k]:
                return eng.violate(st, "a handler is called with other arguments than the signal was raised with")
        self.count("calls")

    def end(self, eng, st, how):
        if how == "RETURN":
            self.count("scenarios completed")


def set_group(eng, st, lay, on):
    """the group of the signal, if there is one"""
    if lay.group is None:
        return None
    if not on:
        eng.store(st, ("p", THIS, lay.group), 0, 8)
        return None
    o = ("S#", ("group",), 0)
    st.typ[o] = ((0, eng.p.canon(eng.p.by_name[GROUP].id)),)
    st.nn.add(o)
    eng.store(st, ("p", THIS, lay.group), ("p", o, 0), 8)
    gi = eng.load(st, ("p", o, lay.gimpl), 8, "p")
    eng.assume_cmp(st, "ne", gi, 0)
    return gi


def scenario_setup(mon, lay, p):
    def setup(eng, st, f, a):
        conn = ("S#", ("conn",), 0)
        st.mem[conn] = {}
        st.typ[conn] = ((0, p.canon(f.di[0])),)
        a = list(a)
        a[0] = ("p", conn, 0)
        mon.conn = conn
        st.ghost["conn"] = ("p", conn, 0)
        mon.fnid = ("fnid", a[2][1], a[2][2])
        q = eng.load(st, ("p", a[3][1], a[3][2] + lay.qimpl), 8, "p")
        eng.assume_cmp(st, "ne", q, 0)
        mon.Q = q
        a[4] = lay.modes[mon.mode]
        eng.models.setcont(eng, st, ("p", THIS, lay.list), [])
        mon.G = set_group(eng, st, lay, mon.group)
        return a
    return setup


def scripts(mode, n):
    """all sequences of up to n steps in which no operation is executed which was not scheduled"""
    out = []

    def grow(seq, con, wait, em, skipped):
        if seq and not (seq[-1][0] == "K" and len(seq) == 1):
            out.append(seq)
        if len(seq) >= n:
            return
        # raise
        w = wait
        if con and mode == "single_updates" or \
                con and mode == "batch_updates" and not [x for x in wait if x >= skipped]:
            w = wait + (em,)
        grow(seq + ["R"], con, w, em + 1, skipped)
        if wait:
            rest = wait[1:]
            called = con and wait[0] >= skipped
            grow(seq + ["X"], con, rest, em, skipped)
            if called and len(seq) + 1 < n:
                w = rest
                if mode == "single_updates" or not [x for x in rest if x >= skipped]:
                    w = rest + (em,)
                grow(seq + ["X[R"], con, w, em + 1, skipped)
                grow(seq + ["X[D"], 0, rest, em, skipped)
                grow(seq + ["X[K"], con, rest, em, em)
        if "D" not in seq:
            grow(seq + ["D"], 0, wait, em, skipped)
        if not seq or seq[-1] != "K":
            grow(seq + ["K"], con, wait, em, em)
    grow([], 1, (), 0, 0)
    # those being the beginning of another one are covered by it
    known = {tuple(x) for x in out}
    return [x for x in out if len(x) == n or not any(k[:len(x)] == tuple(x) and len(k) > len(x) for k in known)]


PARALLEL = (
    "R R/X R R", "R R/X R x R R", "R X/R R R", "R X/R R x R R", "R X/K R R", "R X/K R x R R", "R K/X R R",
    "R K/X R x R R", "R R/X x R R x", "R R/X D R x", "R R/X K R R x",
)


def release_scripts(n):
    """sequences ending the connection, by two handles of it and by the destruction of the signal"""
    out = []

    def grow(seq, con, gone, wait, em):
        if len(seq) >= n or gone and not wait and seq[-1] in ("D", "d"):
            if "~" in "".join(seq) or "D" in "".join(seq) or "d" in "".join(seq):
                out.append(seq)
            return
        if not gone and em < 2:
            grow(seq + ["R"], con, gone, wait + (1 if con else 0), em + 1)
        if wait:
            grow(seq + ["X"], con, gone, wait - 1, em)
            if con and len(seq) + 1 < n:
                grow(seq + ["X[D"], 0, gone, wait - 1, em)
                if not gone:
                    grow(seq + ["X[~"], 0, 1, wait - 1, em)
        grow(seq + ["D"], 0, gone, wait, em)
        grow(seq + ["d"], 0, gone, wait, em)
        if not gone:
            grow(seq + ["~"], 0, 1, wait, em)
    grow([], 1, 0, 0, 0)
    return out


def signal_classes(ctx):
    """[(class, {role: function}, kind of argument)]"""
    p = ctx.p
    out = []
    api = {}
    for f in ctx.methods(SIGNAL_P):
        api.setdefault(f.base, f)
    for f in ctx.methods(CONNECTION):
        api.setdefault("c:" + f.base, f)
    for n in ("skip_all", "c:disconnect"):
        if n not in api:
            raise Broken(n + " of signals vanished")
    for name, tids in sorted(p.by_name.items(), key=lambda x: x[0]):
        if not name.startswith(SIGNAL) or not name.endswith(")>"):
            continue
        args = name[name.index("(") + 1:-2].strip()
        kind = {"": "void", "int": "int", "user_value": "value"}.get(args)
        fns = {"skip": api["skip_all"], "disconnect": api["c:disconnect"]}
        d = [f for f in ctx.methods(name) if f.base.startswith("~")] or \
            [f for f in ctx.methods(SIGNAL_P) if f.base.startswith("~")]
        if d:
            fns["destroy"] = d[0]
        for f in ctx.methods(name):
            if f.base == "operator()":
                fns["raise"] = f
            elif f.base == "connect" and len(f.di) == 5 and "std::function" in f.dem and "<" not in f.sname:
                fns["connect"] = f
        if "raise" in fns and "connect" in fns:
            out.append((name, fns, kind))
    return out


class VisitMonitor(Monitor):
    """each element of the list of connections gets handled once"""
    what = "?"
    each = True
    wants_mem = True

    def __init__(self, lay):
        self.lay = lay

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["lists"] = (("p", THIS, self.lay.list),)
        g["cur"] = None
        g["done"] = 1
        g["next"] = 0
        g["fin"] = 0

    def handler(self, eng, st):
        c = st.ghost["cur"]
        return None if c is None else deref(eng, st, c)

    def visit(self, eng, st, x):
        g = st.ghost
        if not g["done"]:
            return eng.violate(st, "a connection is not %s" % self.what)
        g["cur"] = x
        g["done"] = 0
        self.count("connections visited")
        self.visited(eng, st)

    def visited(self, eng, st):
        pass

    def did(self, eng, st):
        g = st.ghost
        if g["done"] == 1 and self.each:
            return eng.violate(st, "a connection is %s twice" % self.what)
        g["done"] = 1
        self.count("connections " + self.what)

    def event(self, eng, st, kind, *a):
        g = st.ghost
        mine = bool(a) and a[0] in g["lists"]
        if kind in ("CCOPY", "CMOVE", "CSWAP") and (mine or a[1] in g["lists"]):
            src = a[1] if a[1] in g["lists"] else a[0]
            dst = a[0] if src == a[1] else a[1]
            if kind == "CCOPY" and src == a[0]:
                return eng.violate(st, "the connections of a signal are overwritten")
            g["lists"] = (g["lists"] + (dst,)) if kind == "CCOPY" else (dst,)
            return
        if kind == "CITER" and mine:
            if a[2] == "first" and g["cur"] is not None:
                return eng.violate(st, "the connections are visited twice")
            return self.visit(eng, st, a[1])
        if kind == "CINDEX" and mine:
            if g["cur"] == a[2] and not g["done"]:
                return
            if eng.cmp_truth(st, "eq", a[1], g["next"]) is not True:
                if g["cur"] is not None and eng.cmp_truth(st, "eq", plus(a[1], 1), g["next"]) is True:
                    return
                return eng.violate(st, "a connection is not %s" % self.what)
            g["next"] = plus(a[1], 1)
            return self.visit(eng, st, a[2])
        if kind == "AVISIT" and mine:
            if a[1] != "for_each":
                return
            g["cur"] = None
            g["done"] = 1
            return self.visit(eng, st, a[2])
        if kind == "APRED" and mine and a[1] == "for_each":
            if not g["done"]:
                return eng.violate(st, "a connection is not %s" % self.what)
            g["fin"] = 1
            return
        if kind == "CITEREND" and mine:
            if not g["done"]:
                return eng.violate(st, "a connection is not %s" % self.what)
            g["fin"] = 1
            return
        if kind in ("CCLEAR", "CDTOR") and mine:
            if not self.finished(eng, st, a[0]):
                return eng.violate(st, "connections are dropped without having been %s" % self.what)
            g["fin"] = 1
            return
        if kind == "RETURN":
            if not g["done"]:
                return eng.violate(st, "a connection is not %s" % self.what)
            if not any(self.finished(eng, st, l) for l in g["lists"]):
                return eng.violate(st, "not all connections are %s" % self.what)
            self.count("lists completed")
            return
        self.on(eng, st, kind, *a)

    def finished(self, eng, st, l):
        g = st.ghost
        if g["fin"] or empty(eng, st, l) is True:
            return True
        return g["done"] and eng.cmp_truth(st, "sge", g["next"], eng.models.size(eng, st, l)) is True

    def on(self, eng, st, kind, *a):
        pass


class RaiseMonitor(VisitMonitor):
    what = "notified"

    def __init__(self, lay, mode):
        VisitMonitor.__init__(self, lay)
        self.mode = mode

    def visited(self, eng, st):
        h = self.handler(eng, st)
        if not is_ptr(h):
            return
        eng.assume_cmp(st, "ne", h, 0)
        m = eng.load(st, ("p", h[1], h[2] + self.lay.mode), 4, "i32")
        eng.assume_cmp(st, "eq", m, self.lay.modes[self.mode])
        if self.mode == "batch_updates":
            # whether it needs to be depends on what is pending
            st.ghost["done"] = 2
        q = self.queue(eng, st, h)
        eng.assume_cmp(st, "ne", q, 0)

    def queue(self, eng, st, h):
        return eng.load(st, ("p", h[1], h[2] + self.lay.hqueue + self.lay.qimpl), 8, "p")

    def on(self, eng, st, kind, *a):
        if kind == "VCALL" and (a[0] == QUEUE_IMPL or a[0] == GROUP_IMPL) and a[1] == "async":
            h = self.handler(eng, st)
            if not is_ptr(h):
                return eng.violate(st, "something is scheduled for no connection")
            q = a[2] if a[0] == QUEUE_IMPL else deref(eng, st, a[4])
            if not same(eng, st, q, self.queue(eng, st, h)):
                return eng.violate(st, "a connection is notified on a queue which is not its own")
            if self.mode == "_synchronous_update":
                return eng.violate(st, "a synchronous connection is scheduled")
            self.did(eng, st)
        elif kind == "ENTER" and self.mode == "_synchronous_update":
            self.did(eng, st)
        elif kind in ("TERMINATE", "NULLDEREF"):
            st.dead = True


CHANGES = ("CINSERT", "CPOP", "CERASE", "CERASERANGE", "CREMOVED", "CSWAP", "CMOVE", "CCOPY", "CCLEAR", "CCHANGE",
           "CSPLICE", "AMOVE")


class AddMonitor(Monitor):
    """connecting appends to the list, whatever it holds"""

    def __init__(self, lay):
        self.lay = lay

    def start(self, eng, st):
        st.ghost["n"] = 0

    def event(self, eng, st, kind, *a):
        mine = ("p", THIS, self.lay.list)
        if kind == "CINSERT" and a[0] == mine:
            st.ghost["n"] += 1
            if st.ghost["n"] > 1:
                return eng.violate(st, "a handler is connected twice")
        elif kind in CHANGES and mine in a[:2] and not (kind == "CCOPY" and a[1] == mine):
            return eng.violate(st, "connecting changes other connections")
        elif kind == "RETURN":
            if st.ghost["n"] != 1:
                return eng.violate(st, "a handler is not added to those connected already")
            self.facts["connections added"] = self.facts.get("connections added", 0) + 1


class RemoveMonitor(Monitor):
    """disconnecting removes nothing but the connection, whatever else the list holds"""

    def __init__(self, lay, ids):
        self.lay = lay
        self.ids = ids

    def start(self, eng, st):
        g = st.ghost
        g["n"] = 0
        g["keep"] = 0

    def mine(self, eng, st, v):
        """is that the connection: True, False or None"""
        return eng.cmp_truth(st, "eq", v, st.ghost["h"])

    def event(self, eng, st, kind, *a):
        g = st.ghost
        lst = ("p", THIS, self.lay.list)
        if kind not in CHANGES + ("APRED", "RETURN") or (kind != "RETURN" and lst not in a[:2]):
            return
        if kind == "RETURN":
            self.facts["disconnects"] = self.facts.get("disconnects", 0) + 1
            self.facts["removals"] = self.facts.get("removals", 0) + (g["n"] > 0)
            return
        if kind == "CCOPY" and a[1] == lst:
            return
        if kind == "APRED":
            if a[1] in ("remove_if", "find_if"):
                x = deref(eng, st, a[2])
                t = eng.truth(st, a[3])
                e = self.mine(eng, st, x)
                exact = t is not None and e is t or \
                    type(a[3]) is tuple and a[3][0] == "c" and a[3][1] == "eq" and \
                    {a[3][2], a[3][3]} == {x, st.ghost["h"]}
                if not exact:
                    return eng.violate(st, "disconnecting removes other connections")
                g["keep"] = 1
            return
        ok = False
        if kind == "CREMOVED":
            ok = a[1] == "value" and self.mine(eng, st, a[2]) is True or a[1] == "remove_if" and g["keep"]
        elif kind == "CERASE":
            ok = self.mine(eng, st, a[1]) is True or g["keep"]
        elif kind == "CERASERANGE":
            ok = a[1] == "none"
        if not ok:
            return eng.violate(st, "disconnecting changes other connections")
        g["n"] = 1


class SkipMonitor(VisitMonitor):
    what = "skipped"
    each = False

    def on(self, eng, st, kind, *a):
        if kind in ("STORE", "ASTORE", "RMW") and is_ptr(a[0]):
            h = self.handler(eng, st)
            if is_ptr(h) and a[0][1] == h[1]:
                self.did(eng, st)


class DisableMonitor(VisitMonitor):
    what = "disabled"
    each = False

    def on(self, eng, st, kind, *a):
        if kind == "DISABLE":
            h = self.handler(eng, st)
            if not (is_ptr(h) and is_ptr(a[0]) and a[0][1] == h[1]):
                return eng.violate(st, "something else than the connection is disabled")
            self.did(eng, st)


def plus(v, d):
    l = lin(v)
    return mklin(l[0], l[1] + d) if l is not None else v


def connection_layout(ctx):
    """(offset of the weak id, offset of the parent) of a connection"""
    p = ctx.p
    t = ctx.cls(CONNECTION)
    ids = [off for n, off, tid in t.members if p.canon(tid) >= 0 and "weak_ptr" in p.types[p.canon(tid)].name]
    par = [off for n, off, tid in t.members if off not in ids]
    if len(ids) != 1 or len(par) != 1:
        raise Broken("members of a connection not recognised")
    return ids[0], par[0]


def remove_jobs(ctx, lay, job):
    """disconnecting one of several connections"""
    ids, par = connection_layout(ctx)
    fs = [f for f in ctx.methods(SIGNAL_P) if f.base == "disconnect"]
    if len(fs) != 1:
        raise Broken("signal_p::disconnect not found")
    mon = RemoveMonitor(lay, ids)

    def setup(eng, st, f, a):
        c = a[-1]
        h = eng.load(st, ("p", c[1], c[2] + ids), 8, "p")
        eng.assume_cmp(st, "ne", h, 0)
        st.ghost["h"] = h
        return None
    job(fs[0], lambda: mon, models=lambda: Models(CANCEL_MODELS), sequential=True, setup=setup,
        label=fs[0].dem + " (others connected)")


class P11(Spec):
    id = "P11"
    requires = ("P10",)
    explanation = (
        "Abstract interpretation of sequences of the public functions of signals on one connection (connect, raise, "
        "execution of what was scheduled, skip, disconnect, also from within the handler), compared step by step with "
        "an automaton of the contract for each notification mode, with and without group and for all kinds of "
        "arguments; values and identities stay symbolic. A further automaton decides that raising a signal visits "
        "each connection of a list of any length.")
    rules = (
        "each emission schedules each connected handler once on the queue given at connection time (through the "
        "group of the signal if it has one), calls it once on execution with the arguments raised; "
        "batched connections schedule exactly if nothing not yet started is pending, synchronous ones call directly",
        "after disconnecting nothing is called, what is pending when skipping is not called, what is raised after is",
        "raising visits the whole list of connections",
        "the contract also holds if another thread executes, raises or skips at any atomic access of a call under way "
        "(the threads taking turns up to three times)",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "cancelable scopes work as decided by P10, queues as decided by P01 and P02, locking as decided by P22",
        "the sequences analysed (up to eight steps) are representative, the state of a connection being a counter "
        "of pending operations and of skips",
    ]

    def check(self, ctx):
        lay = Layout(ctx)
        sig = signal_classes(ctx)
        ctx.floor("signal types", len(sig), 3)
        n = 0
        for name, fns, kind in sig:
            if kind is None:
                continue
            for mode in sorted(lay.modes):
                for group in (0, 1):
                    if mode == "_synchronous_update" and group:
                        continue
                    depth = 3 if kind != "int" or group else 6 if ctx.tier == "thorough" else 5
                    for s in scripts(mode, depth):
                        n += 1
                        mon = Scenario(lay, fns, s, mode, group, kind)
                        ctx.job(fns["connect"], lambda mon=mon: mon, setup=scenario_setup(mon, lay, ctx.p),
                                label="%s %s%s: %s" % (name, mode, " with group" if group else "", " ".join(s)),
                                models=lambda: ScenarioModels(CANCEL_MODELS), sequential=True,
                                keep_elements=lambda eng, st, p: True)
            if kind != "int":
                continue
            for mode in ("batch_updates", "single_updates"):
                for s in PARALLEL:
                    mon = Scenario(lay, fns, s.split(), mode, 0, kind)
                    ctx.job(fns["connect"], lambda mon=mon: mon, setup=scenario_setup(mon, lay, ctx.p),
                            label="%s %s: %s (two threads)" % (name, mode, s),
                            models=lambda: ScenarioModels(CANCEL_MODELS), sequential=True, unroll=8,
                            keep_elements=lambda eng, st, p: True)
        ctx.counts["scenarios"] = n
        for name, fns, kind in sig:
            for group in (0, 1):
                for mode in sorted(lay.modes):
                    ctx.job(fns["raise"], lambda mode=mode: RaiseMonitor(lay, mode),
                            models=lambda: Models(ANY_CANCEL_MODELS), sequential=True,
                            label="%s (all %s connections%s)" % (fns["raise"].dem, mode, ", group" if group else ""),
                            setup=lambda eng, st, f, a, group=group: set_group(eng, st, lay, group) and None)
            ctx.job(fns["connect"], lambda: AddMonitor(lay), models=lambda: Models(CANCEL_MODELS), sequential=True,
                    label=fns["connect"].dem + " (others connected)")
        ctx.job(sig[0][1]["skip"], lambda: SkipMonitor(lay), models=lambda: Models(CANCEL_MODELS), sequential=True)
        remove_jobs(ctx, lay, ctx.job)
        ctx.run()
        if not ctx.violations and ctx.fact("scenarios completed") < n:
            raise Broken("only %d of %d scenarios completed" % (ctx.fact("scenarios completed"), n))
        for what in ("connections made", "emissions delivered", "emissions not delivered", "handlers called",
                     "handlers not called", "connections disconnected", "skips", "calls", "connections notified",
                     "connections skipped", "lists completed", "connections added", "removals"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)


def disc_model(eng, st, c, a):
    """signal_p::disconnect(connection&): ends the connection, the handle is empty afterwards"""
    eng.emit(st, "DISC", a[0], a[1])
    if st.dead:
        return False
    ids, par = eng.mon.con
    x = a[1]
    if is_ptr(x):
        eng.store(st, ("p", x[1], x[2] + ids), 0, 8)
        eng.store(st, ("p", x[1], x[2] + ids + 8), 0, 8)
    return eng.ret(st, c, eng.result(st, c, a))


DISC_MODELS = {SIGNAL_P + "::disconnect": disc_model}


def exact_eq(eng, st, v, x, y, want=True):
    """does the value v tell whether x and y are the same"""
    while type(v) is tuple and v[0] == "not":
        v, want = v[1], not want
    t = eng.truth(st, v)
    e = eng.cmp_truth(st, "eq", x, y)
    if t is not None:
        return e is not None and t == (e == want)
    return type(v) is tuple and v[0] == "c" and {v[2], v[3]} == {x, y} and v[1] == ("eq" if want else "ne")


class HandleMonitor(Monitor):
    """ownership of the connection before and after a member function of a handle"""

    def __init__(self, con, what, mine, his):
        self.con = con
        self.what = what        # what the function is to do
        self.mine = mine        # does this / the other handle refer to a connection
        self.his = his

    def words(self, eng, st, x):
        ids, par = self.con
        return tuple(eng.load(st, ("p", x[1], x[2] + off), 8, "p") for off in (par, ids, ids + 8))

    def make(self, eng, st, x, name, on):
        ids, par = self.con
        if not on:
            vals = (0, 0, 0)
        else:
            vals = tuple(("p", ("S#", (name, k), 0), 0) for k in ("signal", "handler", "control"))
            for v in vals:
                st.nn.add(v[1])
            st.bf[("alive", vals[2][1])] = True
        for off, v in zip((par, ids, ids + 8), vals):
            eng.store(st, ("p", x[1], x[2] + off), v, 8)
        return vals

    def setup(self, eng, st, f, a):
        """called before start"""
        sret = f.argattrs and "sret" in str(f.argattrs[0])
        self.res = a[0] if sret else None
        self.me = a[1] if sret else a[0]
        rest = a[2:] if sret else a[1:]
        self.other = rest[0] if rest and self.what in ("copied", "moved", "assigned", "moveassigned") else None
        self.arg = rest[0] if rest else None
        if self.other is not None:
            eng.assume_cmp(st, "ne", self.me, self.other)
        ctor = self.what in ("empty", "copied", "moved")
        st.ghost["mine"] = self.make(eng, st, self.me, "mine", self.mine) if not ctor else (0, 0, 0)
        st.ghost["his"] = self.make(eng, st, self.other, "his", self.his) if self.other is not None else (0, 0, 0)
        return None

    def start(self, eng, st):
        st.ghost["n"] = 0
        st.ghost["keep1"] = self.me
        st.ghost["keep2"] = self.other
        st.ghost["keep3"] = self.res

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "DISC":
            if not g["mine"][0]:
                return eng.violate(st, "a handle not referring to a connection disconnects")
            w = self.words(eng, st, a[1])
            if w[1:] != g["mine"][1:] or a[0] != g["mine"][0]:
                return eng.violate(st, "another connection is disconnected than the one held")
            g["n"] += 1
            if g["n"] > 1:
                return eng.violate(st, "a connection is disconnected twice")
            return
        if kind in ("TERMINATE", "NULLDEREF"):
            return eng.violate(st, "using a handle ends in an assertion or null pointer")
        if kind != "RETURN":
            return
        none = (0, 0, 0)
        want = {"empty": (0, none, g["his"], None), "copied": (0, g["his"], g["his"], None),
                "moved": (0, g["his"], none, None), "destroyed": (1, None, g["his"], None),
                "assigned": (1, g["his"], g["his"], None), "moveassigned": (1, g["his"], none, None),
                "taken": (0, none, None, g["mine"]), "disconnected": (1, none, None, None),
                "observed": (0, g["mine"], g["his"], None)}[self.what]
        if want[0] and g["mine"][0] and not g["n"]:
            return eng.violate(st, "a connection is lost without being disconnected")
        if not want[0] and g["n"]:
            return eng.violate(st, "a connection is disconnected though still in use")
        for w, x, who in ((want[1], self.me, "the handle"), (want[2], self.other, "the other handle"),
                          (want[3], self.res, "the result")):
            if w is None or x is None:
                continue
            if self.words(eng, st, x) != w:
                return eng.violate(st, "%s %s" % (who, "still refers to the connection" if w == none else
                                                  "does not refer to the connection"))
        if self.f.base == "is_connected_to" and not exact_eq(eng, st, a[0], g["mine"][0], self.arg):
            return eng.violate(st, "a handle is said to belong to another signal than the one it is connected to")
        self.facts["handles"] = self.facts.get("handles", 0) + 1
        self.facts["handles disconnected"] = self.facts.get("handles disconnected", 0) + g["n"]


def handle_role(f, cname, scoped):
    """what a member function of a handle is to do"""
    base = f.base
    short = cname.rsplit("::", 1)[-1]
    params = f.params or ""
    if base == short:
        if not params.strip("()"):
            return "empty"
        if "&&" in params:
            return "moved"
        if "connection const&" in params:
            return "copied"
        return None
    if base.startswith("~"):
        return "destroyed" if scoped else None
    if base == "operator=":
        if not scoped:
            return None
        return "moveassigned" if "&&" in params else "assigned"
    return {"take": "taken", "disconnect": "disconnected", "connected": "observed",
            "is_connected_to": "observed"}.get(base)


def handle_jobs(ctx):
    con = connection_layout(ctx)
    n = {}
    for cname in (CONNECTION, SCOPED):
        scoped = cname == SCOPED
        for f in ctx.methods(cname):
            what = handle_role(f, cname, scoped)
            if what is None or what == "moved" and not scoped:
                continue
            n[what] = n.get(what, 0) + 1
            two = what in ("copied", "moved", "assigned", "moveassigned")
            for mine in ((0,) if what in ("empty", "copied", "moved") else (0, 1)):
                for his in ((0, 1) if two else (0,)):
                    mon = HandleMonitor(con, what, mine, his)
                    ctx.job(f, lambda mon=mon: mon, setup=mon.setup, models=lambda: Models(DISC_MODELS),
                            sequential=True, label="%s (%s%s)" % (
                                f.dem, "holding a connection" if mine else "empty",
                                ", other %s" % ("holding a connection" if his else "empty") if two else ""))
    ctx.floor("members of handles", sum(n.values()), 8)
    for what in ("empty", "copied", "moved", "destroyed", "assigned", "moveassigned", "taken", "disconnected"):
        if not n.get(what):
            raise Broken("handles can no longer be %s" % what)


class ManagerMonitor(Monitor):
    """what a connection manager does with its list"""

    def __init__(self, con, off, role):
        self.con = con
        self.off = off
        self.role = role

    def setup(self, eng, st, f, a):
        st.ghost["arg"] = a[1] if len(a) > 1 else None
        arg = st.ghost["arg"]
        if self.role == "add":
            for off, k in ((self.con[1], "signal"), (self.con[0], "handler"), (self.con[0] + 8, "control")):
                v = ("p", ("S#", ("added", k), 0), 0)
                st.nn.add(v[1])
                eng.store(st, ("p", arg[1], arg[2] + off), v, 8)
        return None

    def start(self, eng, st):
        g = st.ghost
        g["keep"] = ("p", THIS, 0)
        g["own"] = ("p", THIS, self.off)      # where the connections are
        g["n"] = 0
        g["cur"] = None
        g["sel"] = 0
        g["gone"] = 0

    def parent(self, eng, st, x):
        return eng.load(st, ("p", x[1], x[2] + self.con[1]), 8, "p")

    def event(self, eng, st, kind, *a):
        g = st.ghost
        lst = ("p", THIS, self.off)
        if kind in ("TERMINATE", "NULLDEREF", "UNWIND"):
            return eng.violate(st, "managing connections ends in an exception or assertion")
        return getattr(self, self.role)(eng, st, kind, lst, a)

    def add(self, eng, st, kind, lst, a):
        g = st.ghost
        if kind == "CINSERT" and a[0] == lst:
            g["n"] += 1
            g["cur"] = a[3]
        elif kind == "DISC":
            return eng.violate(st, "adding a connection disconnects one")
        elif kind in CHANGES and lst in a[:2]:
            return eng.violate(st, "adding a connection changes others")
        elif kind == "RETURN":
            if g["n"] != 1:
                return eng.violate(st, "a connection is %s" % ("not managed" if not g["n"] else "managed twice"))
            arg = g["arg"]
            for off in (self.con[1], self.con[0], self.con[0] + 8):
                x = eng.load(st, ("p", g["cur"][1], off), 8, "p")
                if x != eng.load(st, ("p", arg[1], arg[2] + off), 8, "p"):
                    return eng.violate(st, "another connection is managed than the one given")
            self.facts["connections managed"] = self.facts.get("connections managed", 0) + 1

    def all(self, eng, st, kind, lst, a):
        g = st.ghost
        if kind == "CSWAP" and g["own"] in a[:2]:
            g["own"] = a[1] if a[0] == g["own"] else a[0]
        elif kind == "CMOVE" and a[1] == g["own"]:
            g["own"] = a[0]
        elif kind in ("CCLEAR", "CDTOR") and a[0] == g["own"]:
            g["gone"] = 1
        elif kind == "CERASERANGE" and a[0] == g["own"]:
            g["gone"] = 1 if a[1] == "all" else g["gone"]
        elif kind == "RETURN":
            if not g["gone"] and empty(eng, st, g["own"]) is not True:
                return eng.violate(st, "not all connections are disconnected")
            if self.f.base[0] != "~" and empty(eng, st, lst) is not True:
                return eng.violate(st, "connections are still managed after resetting them")
            self.facts["managers reset"] = self.facts.get("managers reset", 0) + 1


class ManagedMonitor(Monitor):
    """a manager holding given connections: s of the signal in question, o of another one, - none"""

    def __init__(self, con, off, role, shape):
        self.con = con
        self.off = off
        self.role = role
        self.shape = shape

    def setup(self, eng, st, f, a):
        arg = a[1] if len(a) > 1 else None
        lst = ("p", THIS, self.off)
        other = ("p", ("S#", ("other", "signal"), 0), 0)
        st.nn.add(other[1])
        if is_ptr(arg):
            st.nn.add(arg[1])
            eng.assume_cmp(st, "ne", arg, other)
        elems = []
        for i, c in enumerate(self.shape):
            e = eng.models.mkelem(eng, st, lst, ("managed", i))
            for k, off in enumerate((self.con[0], self.con[0] + 8)):
                v = ("p", ("S#", ("managed", i, k), 0), 0) if c != "-" else 0
                if c != "-":
                    st.nn.add(v[1])
                eng.store(st, ("p", e, off), v, 8)
            eng.store(st, ("p", e, self.con[1]), 0 if c == "-" else arg if c == "s" and is_ptr(arg) else other, 8)
            elems.append(e)
        eng.models.setcont(eng, st, lst, elems)
        return None

    def start(self, eng, st):
        st.ghost["keep"] = ("p", THIS, 0)
        st.ghost["done"] = ()

    def which(self, eng, st, base, off):
        v = eng.load(st, ("p", base, off + self.con[0]), 8, "p")
        if is_ptr(v) and v[1][0] == "S#" and v[1][1][:1] == ("managed",):
            return v[1][1][1]
        return None

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind in ("TERMINATE", "NULLDEREF", "UNWIND"):
            return eng.violate(st, "managing connections ends in an exception or assertion")
        if kind == "DISC":
            i = self.which(eng, st, a[1][1], a[1][2]) if is_ptr(a[1]) else None
            if i is not None:
                if self.role == "some" and self.shape[i] != "s":
                    return eng.violate(st, "a connection with another signal is disconnected")
                g["done"] = tuple(sorted(set(g["done"]) | {i}))
            return
        if kind != "RETURN":
            return
        want = {i for i, c in enumerate(self.shape) if c == "s" or c == "o" and self.role == "all"}
        if want - set(g["done"]):
            return eng.violate(st, "not all connections are disconnected" if self.role == "all" else
                               "a connection with the signal is kept")
        if self.f.base[0] != "~":
            have = set()
            segs = list(eng.models.segs(eng, st, ("p", THIS, self.off)))
            for x in segs:
                if x[0] == "sg":
                    return eng.violate(st, "the connections left are not known")
                i = self.which(eng, st, x, 0)
                if i is not None:
                    have.add(i)
            left = {i for i, c in enumerate(self.shape) if c != "-"} - want
            if left - have:
                return eng.violate(st, "a connection with another signal is lost")
            if self.role == "all" and segs:
                return eng.violate(st, "connections are still managed after resetting them")
        self.facts["managers searched" if self.role == "some" else "managers reset"] = 1
        self.facts["connections selected"] = len(want)


def manager_jobs(ctx):
    p = ctx.p
    con = connection_layout(ctx)
    t = ctx.cls(MANAGER)
    offs = [off for n, off, tid in t.members if p.canon(tid) >= 0 and "connection" in p.types[p.canon(tid)].name]
    if len(offs) != 1:
        raise Broken("connections of a manager not recognised")
    n = {}
    for f in ctx.methods(MANAGER):
        role = {"operator+=": "add", "reset_connections": "all", "reset_connections_with": "some"}.get(f.base)
        if f.base.startswith("~"):
            role = "all"
        if role is None:
            continue
        n[f.base[0] if f.base[0] == "~" else f.base] = 1
        if role != "some":
            mon = ManagerMonitor(con, offs[0], role)
            ctx.job(f, lambda mon=mon: mon, setup=mon.setup, models=lambda: Models(DISC_MODELS), sequential=True)
        if role == "add":
            continue
        for k in range(0, 5 if ctx.tier == "thorough" else 4):
            for shape in itertools.product("so-" if k < 3 else "so", repeat=k):
                mon = ManagedMonitor(con, offs[0], role, shape)
                mon.f = f
                ctx.job(f, lambda mon=mon: mon, setup=mon.setup, models=lambda: ExactModels(DISC_MODELS),
                        sequential=True, keep_elements=lambda eng, st, p: True, unroll=k + 4,
                        label="%s of [%s]" % (f.dem, " ".join(shape)))
    if len(n) < 4:
        raise Broken("members of connection managers vanished")


class P12(Spec):
    id = "P12"
    requires = ("P10",)
    explanation = (
        "Abstract interpretation of sequences of raising, executing, disconnecting (by two handles of the same "
        "connection) and destroying a signal, compared with an automaton of the contract; of each constructor, "
        "assignment and destructor of the handles, for empty and non-empty ones, compared with the calculus of "
        "ownership; and of the connection manager for lists of any length.")
    rules = (
        "each way of ending a connection disables its handler and removes it from the list of the signal, a second "
        "attempt does nothing, after the destruction of a signal nothing of it is accessed",
        "the destructor of a signal disables all its connections",
        "scoped connections disconnect what they hold exactly once when destroyed or assigned to, moved-from and "
        "released ones hold nothing",
        "a connection manager stores each connection, disconnects all of them on reset and destruction, "
        "and exactly those of a given signal on request",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "cancelable scopes work as decided by P10, locking as decided by P22",
        "the sequences analysed are representative, the state of a connection being whether it is in the list of its "
        "signal, whether its signal exists and whether calls are pending",
    ]

    def check(self, ctx):
        lay = Layout(ctx)
        sig = [x for x in signal_classes(ctx) if x[2] is not None]
        ctx.floor("signal types", len(sig), 3)
        n = 0
        for name, fns, kind in sig:
            if "destroy" not in fns:
                raise Broken("destructor of signals not found")
            for mode in sorted(lay.modes):
                depth = 2 if kind != "void" else 5 if ctx.tier == "thorough" else 4
                if mode != "single_updates":
                    depth = min(depth, 3)
                for s in release_scripts(depth):
                    if mode == "_synchronous_update" and [x for x in s if x[0] == "X"]:
                        continue
                    n += 1
                    mon = Scenario(lay, fns, s, mode, 0, kind)
                    ctx.job(fns["connect"], lambda mon=mon: mon, setup=scenario_setup(mon, lay, ctx.p),
                            label="%s %s: %s" % (name, mode, " ".join(s)),
                            models=lambda: ScenarioModels(CANCEL_MODELS), sequential=True, unroll=8,
                            keep_elements=lambda eng, st, p: True)
        ctx.counts["scenarios"] = n
        d = [f for f in ctx.methods(SIGNAL_P) if f.base.startswith("~")]
        if not d:
            raise Broken("destructor of signals not found")
        ctx.job(d[0], lambda: DisableMonitor(lay), models=lambda: Models(CANCEL_MODELS), sequential=True,
                label=d[0].dem + " (any number of connections)")
        handle_jobs(ctx)
        manager_jobs(ctx)
        ctx.run()
        if not ctx.violations and ctx.fact("scenarios completed") < n:
            raise Broken("only %d of %d scenarios completed" % (ctx.fact("scenarios completed"), n))
        for what in ("signals destroyed", "connections disconnected", "connections disabled", "handles",
                     "handles disconnected", "connections managed", "managers reset", "managers searched",
                     "connections selected"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)


SIGNAL_BARRIER = "xdispatch::signal_barrier<"
FN = ("A#", 0, "connected function")


def connect_model(ids, par):
    def model(eng, st, c, a):
        """signal::connect(function, queue, mode): remembers the function"""
        res, sig, fn = a[0], a[1], a[2]
        m = {}
        for off, e in st.mem.get(fn[1], {}).items():
            if type(off) is int and fn[2] <= off < fn[2] + 32:
                m[off - fn[2]] = e
        st.mem[FN] = m
        if fn[1] in st.typ:
            st.typ[FN] = tuple((o - fn[2], t) for o, t in st.typ[fn[1]] if o == fn[2])
        st.ghost["fn"] = ("p", FN, 0)
        eng.emit(st, "CONNECT", sig, a[-1])
        if st.dead:
            return False
        h = ("p", ("S#", ("handler",), 0), 0)
        pi = ("p", ("S#", ("handler block",), 0), 0)
        for off, v in ((ids, h), (ids + 8, pi), (par, sig)):
            if is_ptr(v):
                st.nn.add(v[1])
            eng.store(st, ("p", res[1], res[2] + off), v, 8)
        return eng.ret(st, c, None)
    return model


def b_complete(eng, st, c, a):
    eng.emit(st, "COMPLETE", a[0])
    st.ghost["bdone"] = 1
    return eng.ret(st, c, None)


def b_wait(eng, st, c, a):
    eng.emit(st, "BWAIT", a[0], a[1] if len(a) > 1 else None)
    return eng.ret(st, c, 1 if st.ghost["bdone"] else 0)


def b_completed(eng, st, c, a):
    return eng.ret(st, c, 1 if st.ghost["bdone"] else 0)


def b_dtor(eng, st, c, a):
    eng.emit(st, "BDTOR", a[0])
    return eng.ret(st, c, None)


def cn_disconnect(eng, st, c, a):
    eng.emit(st, "DISC", a[0])
    return eng.ret(st, c, eng.new(st, "y#", ("disconnected", 0)))


def barrier_models(name, ids, par):
    m = {
        BARRIER + "::complete": b_complete, BARRIER + "::wait": b_wait, BARRIER + "::was_completed": b_completed,
        BARRIER + "::~lightweight_barrier": b_dtor, CONNECTION + "::disconnect": cn_disconnect,
        "user_value::user_value": v_copy, "user_value::~user_value": v_dtor, "user_value::operator=": v_copy,
    }
    return m


class BarrierScenario(Monitor):
    """a signal barrier used in a sequence of calls: R the signal is raised,
    W wait, V read the values, ~ destruction"""
    wants_mem = True

    def __init__(self, con, fns, script, kind, shared=False):
        self.con = con
        self.fns = fns
        self.script = script
        self.kind = kind
        self.shared = shared

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def setup(self, eng, st, f, a):
        st.ghost["sig"] = a[1]
        st.ghost["this"] = a[0]
        return None

    def start(self, eng, st):
        g = st.ghost
        g["i"] = -1
        g["stage"] = "C"
        g["n"] = 0
        g["vals"] = ()
        g["orig"] = ()
        g["fn"] = None
        g["bdone"] = 0
        g["conn"] = 0
        g["won"] = 0
        g["comp"] = 0
        g["res"] = None
        g["timeout"] = None
        g["disc"] = 0

    def step(self, eng, st):
        g = st.ghost
        g["i"] += 1
        if g["i"] >= len(self.script):
            return
        op = self.script[g["i"]]
        g["stage"] = op
        g["comp"] = 0
        g["won"] = 0
        if op == "R":
            k = g["n"]
            g["n"] = k + 1
            args = [("p", FN, 0)]
            if self.kind == "int":
                v = eng.new(st, "y#", ("value", k))
                args.append(v)
                g["vals"] += (v,)
            elif self.kind == "value":
                o = ("A#", 0, "raised%d" % k)
                st.mem[o] = {}
                args.append(("p", o, 0))
                d = dict(g["orig"])
                d[(o, 0)] = k
                g["orig"] = tuple(sorted(d.items(), key=str))
                g["vals"] += (k,)
            else:
                g["vals"] += (None,)
            f = self.fns["call"]
        elif op == "W":
            f = self.fns["wait"]
            g["timeout"] = eng.new(st, "y#", ("timeout", g["i"]))
            args = [("p", THIS, 0), g["timeout"]]
        elif op in ("V", "v"):
            f = self.fns["values" if op == "V" else "value"]
            args = [("p", THIS, 0)]
            g["res"] = None
            if f.argattrs and "sret" in str(f.argattrs[0]):
                o = ("A#", 0, "result%d" % g["i"])
                st.mem[o] = {}
                g["res"] = ("p", o, 0)
                args = [g["res"]] + args
        else:
            f = self.fns["destroy"]
            args = [("p", THIS, 0)]
        st.conts = (("call", f.name, tuple(args)),)

    def stage_end(self, eng, st, v):
        g = st.ghost
        s = g["stage"]
        if s == "C":
            if g["conn"] != 1:
                return eng.violate(st, "the barrier is not connected to the signal")
            self.count("barriers")
        elif s == "R":
            first = g["n"] == 1
            if not self.shared and not g["bdone"]:
                return eng.violate(st, "raising the signal does not complete the barrier")
            self.count("raises")
        elif s == "W":
            want = 1 if g["bdone"] else 0
            if eng.cmp_truth(st, "eq", v, want) is not True:
                return eng.violate(st, "waiting returns %s" % (
                    "false though the signal was raised" if want else "true though the signal was not raised"))
            self.count("waits")
        elif s in ("V", "v"):
            if not g["bdone"]:
                return eng.violate(st, "values are accessible before the signal was raised")
            if self.kind == "int":
                x = eng.load(st, g["res"], 4, "i32") if g["res"] is not None else v
                if eng.cmp_truth(st, "eq", x, g["vals"][0]) is not True:
                    return eng.violate(st, "the values are not the ones of the first emission")
            elif self.kind == "value":
                x = dict(g["orig"]).get(g["res"][1:]) if g["res"] is not None else None
                if x != g["vals"][0]:
                    return eng.violate(st, "the values are not the ones of the first emission")
            self.count("values read")
        elif s == "~":
            if not g["disc"]:
                return eng.violate(st, "a barrier is destroyed while being connected")
            self.count("barriers destroyed")

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "CONT":
            return
        if kind == "RETURN":
            self.stage_end(eng, st, a[0])
            if not st.dead:
                self.step(eng, st)
            return
        if kind == "UNWIND":
            if g["stage"] in ("V", "v") and not g["bdone"]:
                self.count("values refused")
                self.step(eng, st)
                return
            return eng.violate(st, "using a barrier ends in an exception")
        if kind in ("TERMINATE", "NULLDEREF"):
            if g["stage"] == "C" and not g["conn"]:
                # there is no default queue
                st.dead = True
                return
            return eng.violate(st, "using a barrier ends in an assertion or null pointer")
        if kind == "CONNECT":
            if g["stage"] != "C" or g["conn"]:
                return eng.violate(st, "the barrier is connected more than once")
            if not same(eng, st, a[0], g["sig"]):
                return eng.violate(st, "the barrier is connected to another signal")
            g["conn"] = 1
            return
        if kind == "DISC":
            g["disc"] = 1
            return
        if kind == "COMPLETE":
            if g["stage"] != "R":
                return eng.violate(st, "the barrier is completed without the signal being raised")
            g["comp"] += 1
            if self.shared and self.kind != "void" and not g["won"] and not st.locks:
                return eng.violate(st, "the barrier is completed by an emission which is not known to be the first one")
            return
        if kind == "BWAIT":
            if g["stage"] == "W" and eng.cmp_truth(st, "eq", a[1], g["timeout"]) is not True:
                return eng.violate(st, "waiting uses another timeout than the one given")
            return
        if kind == "BDTOR":
            if g["stage"] == "~" and not g["disc"]:
                return eng.violate(st, "a barrier is destroyed while still being connected")
            return
        mine = bool(a) and is_ptr(a[0]) and a[0][1] == THIS
        if kind == "CAS" and mine and a[3]:
            if eng.cmp_truth(st, "eq", a[1], 0) is True:
                g["won"] = 1
        elif kind == "RMW" and mine:
            if a[1] in ("xchg", "or", "add") and eng.cmp_truth(st, "eq", a[3], 0) is True and \
                    eng.cmp_truth(st, "ne", a[4], 0) is True:
                g["won"] = 1
            elif a[1] in ("xchg", "or", "add") and eng.cmp_truth(st, "eq", a[3], 0) is None:
                g["pend"] = a[3]
        if self.shared and g["stage"] == "R" and not g["won"] and g.get("pend") is not None and \
                eng.cmp_truth(st, "eq", g["pend"], 0) is True:
            g["won"] = 1
        if kind == "STORE" and g["stage"] == "C" and g["conn"] and mine:
            off = a[0][2]
            if type(off) is int and not (self.fns["member"][0] <= off < self.fns["member"][1]):
                return eng.violate(st, "a member of the barrier is set up after it was connected")
        if kind == "STORE" and self.shared and g["stage"] == "R" and mine:
            if g["comp"]:
                return eng.violate(st, "a barrier is modified after having been completed")
            if not g["won"] and not st.locks:
                return eng.violate(st, "the values are set by an emission which is not known to be the first one")
            self.count("values set")

    def end(self, eng, st, how):
        self.count("scenarios completed")


def b_maybe(eng, st, c, a):
    """was_completed() or wait() of a barrier, with others completing it at any time"""
    def yes(s):
        s.ghost["bdone"] = 1
        return 1
    return eng.fork(st, c, [lambda s: 0, yes])


class ReadMonitor(Monitor):
    """values() while the signal is being raised by somebody else"""
    wants_mem = True

    def start(self, eng, st):
        st.ghost["bdone"] = 0
        st.ghost["orig"] = ()

    def event(self, eng, st, kind, *a):
        if kind in ("LOAD", "STORE") and is_ptr(a[0]) and a[0][1] == THIS:
            if not st.ghost["bdone"] and not st.locks:
                return eng.violate(st, "the values are read though the signal is not known to have been raised")
            self.facts["guarded reads"] = self.facts.get("guarded reads", 0) + 1
        elif kind == "RETURN" and not st.ghost["bdone"]:
            return eng.violate(st, "values are accessible before the signal was raised")


class P13(Spec):
    id = "P13"
    explanation = (
        "Abstract interpretation of sequences of creating a signal barrier, raising the signal, waiting, reading the "
        "values and destroying it, compared with an automaton of the contract, values and their identities being "
        "symbolic; and of the handler connected with other threads raising the signal at the same time.")
    rules = (
        "waiting returns true exactly if the signal was raised, using the timeout given",
        "values are those of the first emission and refused before",
        "of emissions at the same time only the one winning an atomic exchange or holding a lock modifies the "
        "barrier, and nothing is modified after it was completed",
        "a barrier is connected once everything else is set up and disconnected before anything is destroyed",
    )
    requires = ("P14",)
    assumptions = BASE_ASSUMPTIONS + [
        "signals, connections and lightweight barriers work as decided by P11, P12 and P14",
    ]

    def check(self, ctx):
        p = ctx.p
        ids, par = connection_layout(ctx)
        sigs = dict((x[0], x) for x in signal_classes(ctx))
        n = 0
        for name in sorted(p.by_name):
            if not name.startswith(SIGNAL_BARRIER) or not name.endswith(")>"):
                continue
            args = name[name.index("(") + 1:-2].strip()
            kind = {"": "void", "int": "int", "user_value": "value"}.get(args)
            if kind is None:
                continue
            fns = {}
            for f in ctx.methods(name):
                if f.base == "signal_barrier" and "&)" in f.dem:
                    fns["new"] = f
                elif f.base in ("wait", "values"):
                    fns[f.base] = f
                elif f.base.startswith("value"):
                    fns["value"] = f
                elif f.base.startswith("~"):
                    fns["destroy"] = f
            call = "std::function<void (%s)>::operator()(%s) const" % (args, args)
            for f in p.funcs.values():
                if f.dem == call:
                    fns["call"] = f
                elif kind != "void" and f.dem.endswith("%s::value<0>() const" % name):
                    fns["value"] = f
            for x in ("new", "wait", "values", "destroy", "call"):
                if x not in fns:
                    raise Broken("%s of %s not found" % (x, name))
            conns = [(off, off + p.sizeof(tid)) for _, off, tid in p.by_name[name].members
                     if p.canon(tid) >= 0 and "connection" in p.types[p.canon(tid)].name]
            if len(conns) != 1:
                raise Broken("connection of %s not recognised" % name)
            fns["member"] = conns[0]
            models = barrier_models(name, ids, par)
            sig = sigs.get(SIGNAL + name[len(SIGNAL_BARRIER):])
            if sig is None:
                raise Broken("signal of %s not found" % name)
            models[sig[1]["connect"].key] = connect_model(ids, par)
            for s in self.scripts(4 if ctx.tier == "quick" else 6, "value" in fns):
                n += 1
                mon = BarrierScenario((ids, par), fns, s, kind)
                ctx.job(fns["new"], lambda mon=mon: mon, setup=mon.setup, models=lambda models=models: Models(models),
                        label="%s: %s" % (name, " ".join(s)), sequential=True)
            mon = BarrierScenario((ids, par), fns, ["R"], kind, True)
            ctx.job(fns["new"], lambda mon=mon: mon, setup=mon.setup, models=lambda models=models: Models(models),
                    label="%s: raised by several threads" % name)
            n += 1
            reading = dict(models)
            reading[BARRIER + "::was_completed"] = reading[BARRIER + "::wait"] = b_maybe
            ctx.job(fns["values"], lambda: ReadMonitor(), models=lambda models=reading: Models(models),
                    label="%s: read while being raised" % name)
        ctx.counts["scenarios"] = n
        ctx.run()
        if not ctx.violations and ctx.fact("scenarios completed") < n:
            raise Broken("only %d of %d scenarios completed" % (ctx.fact("scenarios completed"), n))
        for what in ("guarded reads", "barriers", "raises", "waits", "values read", "values refused", "barriers destroyed",
                     "values set"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)

    def scripts(self, n, value):
        out = []

        def grow(seq):
            if len(seq) >= n:
                out.append(seq + ["~"])
                return
            for x in ("R", "W", "V") + (("v",) if value and (not seq or seq[-1] != "V") else ()):
                if x in ("V", "W", "v") and seq and seq[-1] == x and x != "W":
                    continue
                grow(seq + [x])
        grow([])
        return out
