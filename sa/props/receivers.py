"""P28: connections follow the lifetime of their Qt receiver."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import BASE_ASSUMPTIONS, THIS, same

REGISTER = "xdispatch::qt5::register_connection"
DESTROY = "xdispatch::qt5::destroy_connections"
ADD = "xdispatch::connection_manager::operator+="
RESETALL = "xdispatch::connection_manager::reset_connections"
RESETONE = "xdispatch::connection_manager::reset_connections_with"
DTOR = "xdispatch::connection_manager::~connection_manager"
CONNECT = "xdispatch::signal::connect"
DIRECT = 1


def named(n):
    return ("S#", (n,), 0)


SIGNAL = {"C1": "S1", "C2": "S2", "C3": "S1"}

# (step, object, connection or signal); D destroys the object
SCENARIOS = [
    ("register, destroy", [("R", "A", "C1"), ("D", "A")]),
    ("register twice, destroy", [("R", "A", "C1"), ("R", "A", "C2"), ("D", "A")]),
    ("two objects", [("R", "A", "C1"), ("R", "B", "C3"), ("D", "A")]),
    ("two objects, second", [("R", "A", "C1"), ("R", "B", "C3"), ("D", "B")]),
    ("disconnect", [("R", "A", "C1"), ("X", "A", "S1"), ("D", "A")]),
    ("disconnect one of two", [("R", "A", "C1"), ("R", "A", "C2"), ("X", "A", "S1"), ("D", "A")]),
    ("disconnect of another object", [("R", "A", "C1"), ("R", "B", "C3"), ("X", "B", "S1"), ("D", "A")]),
    ("connect again", [("R", "A", "C1"), ("X", "A", "S1"), ("R", "A", "C3"), ("D", "A")]),
    ("nothing connected", [("X", "A", "S1"), ("D", "A")]),
    ("disconnect, then connect", [("X", "A", "S1"), ("R", "A", "C1"), ("D", "A")]),
    ("another object at the same address", [("R", "A", "C1"), ("D", "A"), ("R", "A", "C3"), ("D", "A")]),
    ("child of another receiver", [("R", "K", "C1"), ("X", "A", "S1"), ("D", "K")]),
    ("child and parent", [("R", "K", "C1"), ("R", "A", "C3"), ("X", "A", "S1"), ("D", "K")]),
]


class ReceiverMonitor(Monitor):
    """a sequence of calls for receivers, their destruction included"""

    def __init__(self, ctx, script, fns):
        self.ctx = ctx
        self.script = script
        self.fns = fns

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["i"] = 0
        g["keep_globals"] = 1
        g["held"] = ()          # (manager, connection) in use
        g["open"] = ()          # (object, connection)
        g["added"] = 0
        g["kids"] = ()          # (child, object it is attached to)
        g["slots"] = ()         # (object, slot object)
        g["home"] = ()          # (object, thread it has been moved to)
        g["keys"] = ()          # objects registered in a map
        g["queue"] = ()         # what the destruction of an object still has to call
        g["freed"] = ()
        g["ghosts"] = tuple(("p", named(n), 0) for n in ("A", "B", "K", "C1", "C2", "C3", "S1", "S2",
                                                                   "args"))

    def args(self, step):
        if step[0] == "R":
            return [("p", named(step[1]), 0), ("p", named(step[2]), 0)]
        return [("p", named(step[1]), 0), ("p", named(step[2]), 0)]

    def close(self, eng, st, m, sig):
        g = st.ghost
        gone = tuple(c for x, c in g["held"] if x == m and (sig is None or SIGNAL[c] == sig))
        g["held"] = tuple((x, c) for x, c in g["held"] if not (x == m and c in gone))
        for c in gone:
            if c in dict((c, o) for o, c in g["open"]):
                g["open"] = tuple((o, x) for o, x in g["open"] if x != c)
                g["shut"] = g.get("shut", ()) + (c,)
        self.count("connections closed", len(gone))

    def conn(self, eng, st, v):
        """which of the connections is it"""
        if not is_ptr(v):
            return None
        for c in SIGNAL:
            if v[1] == named(c):
                return c
        for c in SIGNAL:        # a copy
            a = eng.load(st, ("p", named(c), 0), 8, "p")
            b = eng.load(st, v, 8, "p")
            if a == b:
                return c
        return None

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "CALL" and a[0] in (ADD, RESETALL, RESETONE, DTOR) and is_ptr(a[1]) and a[1][1] in g["freed"]:
            return eng.violate(st, "a manager of connections is used after its end")
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "FREE" and is_ptr(a[0]):
            g["freed"] = g["freed"] + (a[0][1],)
        elif kind == "CKINSERT":
            g["keys"] = g["keys"] + ((a[0], a[1]),)
        elif kind == "CKERASE":
            g["keys"] = tuple(x for x in g["keys"] if x != (a[0], a[1]))
        elif kind == "CFIND" and a[2] and is_ptr(a[1]) and a[1][1] in map(named, "ABK"):
            # the sequence begins with the creation of the objects
            if (a[0], a[1]) not in g["keys"]:
                st.dead = True
        elif kind == "UAF":
            eng.violate(st, "a manager of connections is used after its end")
        elif kind == "CALL" and a[0] == ADD:
            c = self.conn(eng, st, a[2])
            step = self.script[g["i"]]
            if step[0] != "R" or c != step[2]:
                return eng.violate(st, "something else than the connection given is registered")
            g["added"] += 1
            if g["added"] > 1:
                return eng.violate(st, "a connection is registered twice")
            g["held"] = g["held"] + ((a[1], c),)
            g["open"] = g["open"] + ((step[1], c),)
            self.count("connections registered")
        elif kind == "CALL" and a[0] == RESETONE:
            s = [n for n in ("S1", "S2") if is_ptr(a[2]) and a[2][1] == named(n)]
            if not s:
                return eng.violate(st, "connections with another signal are removed")
            self.close(eng, st, a[1], s[0])
        elif kind == "CALL" and a[0] in (RESETALL, DTOR):
            self.close(eng, st, a[1], None)
        elif kind == "RETURN":
            self.step(eng, st)

    def step(self, eng, st):
        g = st.ghost
        step = self.script[g["i"]]
        if g["queue"]:
            return self.nextcall(eng, st)
        if step[0] == "R":
            if not g["added"]:
                return eng.violate(st, "a connection is not registered with its receiver")
            g["added"] = 0
        self.judge(eng, st, step)
        if st.dead:
            return
        g["shut"] = ()
        g["i"] += 1
        if g["i"] == len(self.script):
            self.count("sequences completed")
            return
        step = self.script[g["i"]]
        if step[0] != "D":
            st.conts = (("call", self.fns[step[0]].name, tuple(self.args(step))),)
            return
        obj = named(step[1])
        q = [("slot", s) for o, s in g["slots"] if o == obj] + [("kid", k) for k, o in g["kids"] if o == obj]
        g["slots"] = tuple(x for x in g["slots"] if x[0] != obj)
        g["kids"] = tuple(x for x in g["kids"] if x[1] != obj)
        g["queue"] = tuple(q)
        if not q:
            # nothing depends on the object
            return self.step(eng, st)
        self.nextcall(eng, st)

    def nextcall(self, eng, st):
        g = st.ghost
        what, x = g["queue"][0]
        g["queue"] = g["queue"][1:]
        obj = ("p", named(self.script[g["i"]][1]), 0)
        if what == "slot":
            fn = eng.load(st, ("p", x[1], x[2] + 8), 8, "p")
            if not (isinstance(fn, tuple) and fn[0] == "f"):
                raise Broken("slot of unknown type")
            st.conts = (("call", fn[1], (1, x, obj, ("p", named("args"), 0), 0)),)
        else:
            fn = self.deleter(eng, st, x)
            st.conts = (("call", fn[0], (fn[1],)),)
        self.count("reactions to destruction")

    def deleter(self, eng, st, obj):
        p = self.ctx.p
        q = p.by_name.get("QObject")
        e = st.mem.get(obj[1], {}).get(obj[2])
        for t in self.ctx.derived("QObject"):
            off = p.base_offset(t.id, q.id)
            vt = p.vtable(t.id, off) if off is not None else None
            if not vt or e is None or not is_ptr(e[0]) or e[0][1] != ("G#", vt[0]) or e[0][2] != vt[1]:
                continue
            for f in p.funcs.values():
                if f.blocks and f.dem.startswith(t.name + "::~") and f.name.endswith("D0Ev"):
                    return f.name, ("p", obj[1], obj[2] - off)
        raise Broken("how a child is destroyed")

    def judge(self, eng, st, step):
        """what has to be closed by now"""
        g = st.ghost
        shut = g.get("shut", ())
        if step[0] == "D":
            left = [c for o, c in g["open"] if o == step[1]]
            if left:
                return eng.violate(st, "a connection stays open after the destruction of its receiver")
            self.count("destructions judged")
        elif step[0] == "X":
            if any(o == step[1] and SIGNAL[c] == step[2] for o, c in g["open"]):
                return eng.violate(st, "disconnecting an object from a signal leaves a connection open")
            self.count("disconnects judged")
        elif shut:
            return eng.violate(st, "registering a connection closes another one")
        # nobody else's
        for c in shut:
            owner = [s[1] for s in self.script if s[0] == "R" and s[2] == c][0]
            if owner != step[1] or step[0] == "X" and SIGNAL[c] != step[2]:
                return eng.violate(st, "a connection of another receiver or signal is closed")


# ---------------------------------------------------------------------- Qt
def home(st, obj):
    for o, t in reversed(st.ghost["home"]):
        if o == obj:
            return t
    return None


def thread_of(eng, st, c, a):
    o = ("S#", ("threadof", a[0]), 0)
    st.mem.setdefault(o, {})
    st.nn.add(o)
    return eng.ret(st, c, ("p", o, 0))


def move_model(eng, st, c, a):
    st.ghost["home"] = st.ghost["home"] + ((a[0], a[1]),)
    return eng.ret(st, c, None)


def parent_model(eng, st, c, a):
    """parents need to live on the same thread, the caller might be on any"""
    g = st.ghost
    g["kids"] = tuple(x for x in g["kids"] if x[0] != a[0])
    if is_ptr(a[1]) and home(st, a[0]) == ("p", ("S#", ("threadof", a[1]), 0), 0):
        g["kids"] = g["kids"] + ((a[0], a[1][1]),)
    return eng.ret(st, c, None)


def qobject_dtor(eng, st, c, a):
    st.ghost["kids"] = tuple(x for x in st.ghost["kids"] if x[0] != a[0])
    return eng.ret(st, c, None)


def find_child(eng, st, c, a):
    """qt_qFindChild_helper(parent, name, type, options)"""
    kids = st.ghost["kids"]
    direct = [k for k, o in kids if is_ptr(a[0]) and o == a[0][1]]
    if not direct and a[3] != 0:
        direct = [k for k, o in kids if o == named("K") and a[0][1] == named("A")]
    return eng.ret(st, c, direct[0] if direct else 0)


def connect_impl(eng, st, c, a):
    """QObject::connectImpl(sender, signal, receiver, slot, slot object, type, types, meta object)"""
    k = 1 if c.sret or len(a) > 8 else 0
    sender, signal, receiver, slot, slotobj, how = a[k:k + 6]
    f = eng.load(st, signal, 8, "p") if is_ptr(signal) else None
    name = eng.p.demangled(f[1]) if isinstance(f, tuple) and f[0] == "f" and hasattr(eng.p, "demangled") else \
        (f[1] if isinstance(f, tuple) and f[0] == "f" else "")
    if "destroyed" in name and is_ptr(sender) and is_ptr(slotobj):
        # queued slots are executed too late; the destructor may run on any thread
        if how in (DIRECT, 0) and (how == DIRECT or receiver == sender):
            st.ghost["slots"] = st.ghost["slots"] + ((sender[1], slotobj),)
    eng.escape(st, slotobj)
    return eng.ret(st, c, eng.result(st, c, a))


def flags_ctor(eng, st, c, a):
    eng.store(st, a[0], a[1] if len(a) > 1 and type(a[1]) is int else 0, 4)
    return eng.ret(st, c, None)


def flags_value(eng, st, c, a):
    return eng.ret(st, c, eng.load(st, a[0], 4, "i"))


QT = {"QFlags::QFlags": flags_ctor, "QFlags::operator Int": flags_value,
      "QObject::thread": thread_of, "QObject::moveToThread": move_model, "QObject::setParent": parent_model,
      "QObject::~QObject": qobject_dtor, "qt_qFindChild_helper": find_child, "QObject::connectImpl": connect_impl}


class ConnectMonitor(Monitor):
    """qt5::connect and qt5::disconnect"""

    def __init__(self, what):
        self.what = what

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        st.ghost["connected"] = 0
        st.ghost["registered"] = 0
        st.ghost["removed"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "CALL" and a[0] == CONNECT:
            g["connected"] += 1
            rest = list(a[1:])
            for v in g["need"]:
                if v not in rest and ("y#", v[1][1], 0) not in rest:
                    return eng.violate(st, "a handler is connected with something else than what was given")
            g["conn"] = rest[0]
        elif kind == "CALL" and a[0] == REGISTER:
            g["registered"] += 1
            if a[1] != g["receiver"]:
                return eng.violate(st, "a connection is registered for another object than the receiver")
            if not g["connected"] or a[2] != g["conn"] and eng.load(st, a[2], 8, "p") != eng.load(st, g["conn"], 8, "p"):
                return eng.violate(st, "something else than the connection made is registered")
        elif kind == "CALL" and a[0] == DESTROY:
            g["removed"] += 1
            if a[1] != g["receiver"] or a[2] != g["sender"]:
                return eng.violate(st, "another object or signal than the one given is disconnected")
        elif kind == "RETURN":
            if self.what == "connect":
                if g["connected"] != 1 or g["registered"] != 1 or g["removed"]:
                    return eng.violate(st, "a connection is not registered with its receiver exactly once")
                self.count("connects judged")
            else:
                if g["removed"] != 1:
                    return eng.violate(st, "connections of a receiver are not removed")
                self.count("disconnects judged")


class P28(Spec):
    id = "P28"
    technique = "abstract interpretation of sequences of calls with an automaton of the connections of each receiver"
    explanation = (
        "Registering and removing connections is interpreted abstractly in sequences with several receivers, signals and "
        "connections, on behalf of any thread. The destruction of a receiver runs whatever the library attached to it "
        "(children, slots connected directly to its destroyed signal). An automaton keeps which connections have to be "
        "open or closed after each step. The templates connecting handlers are interpreted on their own. That managers close the "
        "connections they hold is decided by P12.")
    rules = (
        "each connection made for a receiver is registered with this receiver exactly once",
        "when a receiver is destroyed all connections registered with it are closed before its destructor ends, no matter "
        "which thread registered them",
        "disconnecting a receiver from a signal closes the connections between the two and no others",
        "registering, removing and destroying in any order neither uses a manager after its end nor closes connections of others")
    requires = ("P12",)
    assumptions = BASE_ASSUMPTIONS + [
        "Qt refuses parents living on another thread than their child, deletes children with their parent, and calls slots "
        "connected directly to destroyed() within the destructor",
        "a receiver is not destroyed while it is being connected or disconnected by another thread"]

    def check(self, ctx):
        p = ctx.p
        fns = {}
        for k, key in (("R", REGISTER), ("X", DESTROY)):
            fs = [f for f in ctx.fn(key) if f.blocks]
            if not fs:
                raise Broken("no " + key)
            fns[k] = fs[0]
        conn = ctx.cls("xdispatch::connection").id
        sig = ctx.cls("xdispatch::signal_p").id
        qo = ctx.cls("QObject").id
        opaque = {k: None for k in (ADD, RESETALL, RESETONE, DTOR)}
        for name, script in SCENARIOS:
            f = fns[script[0][0]]

            def setup(eng, st, f, a, script=script):
                st.mem.setdefault(named("args"), {0: (0, 8), 8: (0, 8)})
                st.nn.add(named("args"))
                for n, t in (("A", qo), ("B", qo), ("K", qo), ("C1", conn), ("C2", conn), ("C3", conn), ("S1", sig),
                             ("S2", sig)):
                    st.mem.setdefault(named(n), {})
                    st.nn.add(named(n))
                    st.typ[named(n)] = ((0, t),)
                return [("p", named(script[0][1]), 0), ("p", named(script[0][2]), 0)]
            ctx.job(f, lambda script=script: ReceiverMonitor(ctx, script, fns), setup=setup, label="receivers: " + name,
                    models=lambda: Models(QT), opaque=opaque, sequential=True)
        n = 0
        for f in sorted(p.funcs.values(), key=lambda f: f.dem):
            if not f.blocks or not f.dem.startswith(("xdrv::qt_connect_", "xdrv::qt_disconnect")):
                continue
            n += 1
            what = "connect" if "qt_connect" in f.dem else "disconnect"

            def setup(eng, st, f, a, what=what):
                st.ghost["sender"] = a[0]
                st.ghost["receiver"] = a[1]
                st.ghost["need"] = tuple(x for k, x in enumerate(a) if k != 1 or "member" in f.dem) if what == "connect" \
                    else ()
                st.ghost["conn"] = None
            ctx.job(f, lambda what=what: ConnectMonitor(what), setup=setup, label=f.dem, sequential=True,
                    opaque={CONNECT: None, REGISTER: None, DESTROY: None})
        ctx.floor("functions connecting receivers", n, 3)
        ctx.run()
        for what in ("connections registered", "connections closed", "destructions judged", "disconnects judged",
                     "connects judged", "reactions to destruction"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)
