"""P31: operations call what they wrap."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import BASE_ASSUMPTIONS, THIS

QUEUE_IMPL = "xdispatch::iqueue_impl"
RAISE = "xdispatch::signal::operator()"
GROUP_IMPL = "xdispatch::igroup_impl"
TIMER_IMPL = "xdispatch::itimer_impl"
NOTIFIER_IMPL = "xdispatch::isocket_notifier_impl"
SUBMIT = {(QUEUE_IMPL, "async"), (QUEUE_IMPL, "apply"), (QUEUE_IMPL, "after"),
          (GROUP_IMPL, "async"), (GROUP_IMPL, "notify"),
          (TIMER_IMPL, "handler"), (NOTIFIER_IMPL, "handler")}


def arg(n):
    return ("S#", ("arg", n), 0)


def is_class_param(p, t):
    """passed by the address of an object (references and classes not passed in registers)"""
    u = p.canon(t)
    T = p.types[u]
    return u >= 0 and (T.tag in (TAG_PTR, TAG_REF, TAG_RREF) or bool(T.members))


def params_of(eng, st, p, f, first=2):
    """one distinct value for each of the parameters of f"""
    out = []
    for k, t in enumerate(f.di[first:]):
        if is_class_param(p, t):
            o = ("S#", ("param", k), 0)
            st.mem.setdefault(o, {})
            st.nn.add(o)
            out.append(("p", o, 0))
        else:
            out.append(("y#", ("param", k), 0))
    return tuple(out)


def uses(v, o):
    """the value o occurs in the derivation of the value v"""
    if v == o:
        return True
    return isinstance(v, tuple) and any(uses(x, o) for x in v)


class CallMonitor(Monitor):
    """judges the calls of user code"""

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def equal(self, eng, st, want, got):
        if want == got:
            return True
        if is_ptr(want) and is_ptr(got):
            m = eng.models
            if m.uid(st, want) == m.uid(st, got) or m.sid(eng, st, want) == m.sid(eng, st, got):
                return True
        return False

    def expect(self, eng, st, params, got, what):
        got = list(got)
        if len(got) != len(params):
            eng.violate(st, "%s called with %d values instead of %d" % (what, len(got), len(params)))
            return
        for k, (w, v) in enumerate(zip(params, got)):
            if not self.equal(eng, st, w, v):
                eng.violate(st, "%s called with another value for parameter %d than the one passed to the operation"
                            % (what, k + 1))
            else:
                self.count("parameters")

    def relevant(self, g, kind, a):
        """calls what has been given"""
        n, member = g["callable"]
        if kind == "UCALL":
            return a[0] == ("uid", arg(n), 0)
        return kind == "ICALL" and (uses(a[0], arg(n)) or uses(a[0], ("arg", n + 1)))

    def called(self, eng, st, kind, a):
        """a call of user code, of the callable (at argument n) or the member (of the argument n)"""
        g = st.ghost
        g["calls"] = min(g["calls"] + 1, 3)
        if g["calls"] > 1:
            eng.violate(st, "wrapped callable called more than once by one execution of the operation")
            return
        n, member = g["callable"]
        if not member:
            if kind != "UCALL" or a[0] != ("uid", arg(n), 0):
                eng.violate(st, "something other than the wrapped callable is called")
                return
            if is_ptr(a[1]) and a[1][1] == arg(n) and not g["inplace"]:
                eng.violate(st, "the callable passed is called instead of the operation's copy of it, "
                            "its lifetime may have ended before")
                return
            self.expect(eng, st, g["params"], a[2:], "wrapped callable")
        else:
            if kind != "ICALL":
                eng.violate(st, "something other than the wrapped member function is called")
                return
            callee, this, rest = a[0], a[1], a[2:]
            direct = callee == ("y#", ("arg", n + 1), 0)
            virtual = is_ptr(callee) and callee[1][0] == "S#" and callee[1][1][0] == "idx" and uses(callee, arg(n))
            if not direct and not virtual:
                eng.violate(st, "something other than the wrapped member function is called")
                return
            if not (is_ptr(this) and this[1] == arg(n)):
                eng.violate(st, "wrapped member function called for another object than the one given")
                return
            self.expect(eng, st, g["params"], rest, "wrapped member function")
        self.count("calls")


class WrapMonitor(CallMonitor):
    """wraps a callable and executes the operation obtained twice"""

    def __init__(self, same=False):
        self.same = same

    def start(self, eng, st):
        st.ghost["phase"] = "wrap"
        st.ghost["calls"] = 0
        st.ghost["inplace"] = False

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind in ("UCALL", "ICALL"):
            if g["phase"] == "wrap":
                if self.relevant(g, kind, a):
                    eng.violate(st, "callable called while being wrapped")
                return
            self.called(eng, st, kind, a)
        elif kind == "UNWIND":
            g["phase"] = "thrown"
        elif kind == "RETURN" and g["phase"] == "wrap":
            op = eng.load(st, g["out"], 8, "p")
            self.count("wrapped")
            if self.same:
                src = eng.load(st, ("p", arg(1), 0), 8, "p")
                if op != src:
                    eng.violate(st, "an operation given is replaced by another one")
                return
            f = eng.models.op_function(eng, st, op)
            if f is None:
                eng.violate(st, "no operation is created for the callable")
                return
            g["op"] = op
            g["phase"] = "run"
            g["params"] = params_of(eng, st, eng.p, f)
            x = ("exec", op, "x", g["params"])
            st.conts = (x, x)
            g["left"] = 2
        elif kind == "RETURN" and g["phase"] == "run":
            self.finished(eng, st)

    def finished(self, eng, st):
        g = st.ghost
        if not g["calls"]:
            eng.violate(st, "operation executed without calling the wrapped callable")
        g["calls"] = 0
        g["left"] -= 1
        self.count("executions")


class SubmitMonitor(WrapMonitor):
    """hands a callable over to a queue, group, timer or notifier"""

    def start(self, eng, st):
        super().start(eng, st)
        st.ghost["subs"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "RETURN" and g["phase"] == "wrap":
            if not g["subs"]:
                eng.violate(st, "callable is not handed over")
        elif kind == "UNWIND":
            pass
        else:
            super().event(eng, st, kind, *a)


def submission_model(cname, meth):
    """what an implementation does with the operation: execute it at any later time, several times for apply
    and timers"""
    def model(eng, st, c, a):
        g = st.ghost
        k = 1 if c.sret else 0
        if g["phase"] != "wrap" or "subs" not in g:
            return NotImplemented
        g["subs"] += 1
        if g["subs"] > 1:
            eng.violate(st, "callable handed over more than once")
            return False
        if (cname, meth) != g["target"]:
            eng.violate(st, "callable handed over to %s::%s() instead of %s::%s()" % ((cname, meth) + g["target"]))
            return False
        op = f = None
        for x in a[k + 1:]:
            if is_ptr(x):
                o = eng.load(st, x, 8, "p")
                f = eng.models.op_function(eng, st, o)
                if f is not None:
                    op = o
                    break
        if op is None:
            eng.violate(st, "what is handed over does not wrap the callable given")
            return False
        for n in g["scalars"]:
            if ("y#", ("arg", n), 0) not in a:
                eng.violate(st, "%s::%s() called with another value than the one given" % (cname, meth))
                return False
        mon = eng.mon
        mon.count("submissions")
        g["params"] = params_of(eng, st, eng.p, f)
        g["left"] = 2
        g["phase"] = "run"
        g["op"] = op

        def again(eng, st, c, tag):
            mon.finished(eng, st)
            if st.dead:
                return False
            if st.ghost["left"]:
                return execute(eng, st)
            st.ghost["phase"] = "wrap"
            return eng.ret(st, c, eng.result(st, c, a))

        def execute(eng, st):
            eng.push_frame(st, f, [st.ghost["op"]] + list(st.ghost["params"]), c, tag=("then", "nested", again, c.dst))
            eng.push(st)
            return False
        return execute(eng, st)
    return model


def submission_models():
    return Models(extra={"%s::%s" % x: submission_model(*x) for x in SUBMIT})


class ConnectMonitor(CallMonitor):
    """connects a member function or another signal"""

    def start(self, eng, st):
        g = st.ghost
        g["calls"] = 0
        g["inplace"] = True
        g["connected"] = 0
        g["running"] = 0
        g["params"] = ()

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind in ("UCALL", "ICALL", "CALL"):
            if kind == "CALL" and a[0] != RAISE:
                return
            if not g["running"]:
                if kind == "CALL" or self.relevant(g, kind, a):
                    eng.violate(st, "handler called while being connected")
                return
            if g["other"] is None:
                self.called(eng, st, kind, a)
                return
            g["calls"] += 1
            if g["calls"] > 1:
                eng.violate(st, "connected signal raised more than once")
            elif kind != "CALL" or a[1] != ("p", arg(g["other"]), 0):
                eng.violate(st, "something other than the connected signal is called")
            else:
                self.expect(eng, st, g["params"], a[2:], "connected signal")
                self.count("calls")
        elif kind == "RETURN" and g["running"] == 0:
            if not g["connected"]:
                eng.violate(st, "no handler is connected")
                return
            self.count("connects")
            g["running"] = 1
            x = ("call", g["call"], (g["functor"],) + g["params"])
            st.conts = (x, x)
        elif kind == "RETURN":
            if not g["calls"]:
                eng.violate(st, "connected handler does not call what it has been created for")
            g["calls"] = 0


def find_call(p, t):
    """operator() of the std::function type t"""
    for f in p.funcs.values():
        if f.key == "std::function::operator()" and f.blocks and len(f.di) > 1:
            if p.canon(p.types[p.canon(f.di[1])].base) == t:
                return f
    return None


def find_copy(p, t):
    """copy constructor of the std::function type t"""
    for f in p.funcs.values():
        if f.key == "std::function::function" and f.blocks and len(f.di) == 3 and strip(p, f.di[2]) == t and \
                p.types[p.canon(f.di[2])].tag == TAG_REF:
            return f
    raise Broken("no copy constructor of " + p.types[t].name)


def strip(p, t):
    """the class a reference type refers to"""
    t = p.canon(t)
    if t >= 0 and p.types[t].tag in (TAG_REF, TAG_RREF):
        return p.canon(p.types[t].base)
    return t


def connect_model(eng, st, c, a):
    """signal::connect(functor, queue, mode): calls the functor once"""
    p = eng.p
    f = c.f
    if f is None or len(f.di) < 3:
        return NotImplemented
    t = strip(p, f.di[2])
    if not p.types[t].name.startswith("std::function<"):
        return NotImplemented
    call = find_call(p, t)
    if call is None:
        raise Broken("no call operator for " + f.dem)
    g = st.ghost
    k = 1 if c.sret else 0
    g["connected"] += 1
    if g["connected"] > 1:
        eng.violate(st, "handler connected more than once")
        return False
    if a[k] != ("p", g["self"], 0):
        eng.violate(st, "handler connected to another signal")
        return False
    if g["other"] is None and len(a) > k + 3:
        if a[k + 2] not in (("p", arg(g["queue"]), 0), ("y#", ("arg", g["queue"]), 0)) or a[k + 3] != ("y#", ("arg", g["queue"] + 1), 0):
            eng.violate(st, "handler connected with another queue or mode than the ones given")
            return False
    g["params"] = params_of(eng, st, p, call)
    # the signal keeps a copy of the functor
    o = ("H#", ("functor",), 0)
    st.mem.setdefault(o, {})
    st.nn.add(o)
    g["functor"] = ("p", o, 0)
    g["call"] = call.name

    def copied(eng, st, c, tag):
        return eng.ret(st, c, eng.result(st, c, a))

    eng.push_frame(st, find_copy(p, t), [g["functor"], a[k + 1]], c, tag=("then", "nested", copied, c.dst))
    eng.push(st)
    return False


class P31(Spec):
    id = "P31"
    technique = ("abstract interpretation of the wrappers for all kinds of callables with tracking of the identity of "
                 "callables, objects and parameters")
    explanation = ("Each wrapper template is instantiated for callables and members of all arities the library uses "
                   "(none, index, several parameters, values with copy constructor), the wrapping is interpreted "
                   "abstractly with nothing known about the callable and the operation obtained is then executed twice "
                   "with distinct symbolic parameters. Every call of unknown code on every path is judged.")
    rules = ("wrapping a callable never calls it and creates an operation unless an operation is given, which is kept",
             "each execution calls exactly once, the operation's own copy of the callable or the member function given "
             "for the object given",
             "parameters are passed on unchanged and in order",
             "overloads taking a callable hand exactly one operation wrapping it to the implementation called for, with "
             "delay and count unchanged",
             "a connected member function or signal is called exactly once, with the values of the signal")
    assumptions = BASE_ASSUMPTIONS + [
        "the copy constructor of a callable creates an equivalent callable",
        "templates are judged for the instantiations of frontend/driver.cpp"]

    def check(self, ctx):
        p = ctx.p
        wraps = subs = cons = 0
        for f in sorted(p.funcs.values(), key=lambda f: f.dem):
            if not f.blocks:
                continue
            name = f.dem.split("(")[0]
            if name.startswith(("xdrv::op_", "xdrv::it_", "xdrv::sn_")):
                wraps += 1
                same = name.endswith("_same")

                def setup(eng, st, f, a, name=name):
                    st.ghost["out"] = a[0]
                    st.ghost["callable"] = (1, "_member" in name)
                    st.ghost["params"] = ()
                    if name.endswith("_same"):
                        for off in (0, 8):      # an operation is given
                            v = eng.load(st, ("p", arg(1), off), 8, "p")
                            st.nn.add(v[1])
                ctx.job(f, lambda same=same: WrapMonitor(same), setup=setup, label=f.dem, sequential=True)
            elif name in TARGETS:
                subs += 1

                def setup(eng, st, f, a, name=name):
                    target, n, scalars = TARGETS[name]
                    st.ghost["callable"] = (n, False)
                    st.ghost["target"] = target
                    st.ghost["scalars"] = scalars
                    st.ghost["params"] = ()
                ctx.job(f, SubmitMonitor, setup=setup, label=f.dem, sequential=True, models=submission_models)
            elif name.startswith("xdrv::signal_connect_"):
                cons += 1

                def setup(eng, st, f, a, name=name):
                    st.ghost["callable"] = (2, True)
                    st.ghost["other"] = None
                    st.ghost["queue"] = 5
                    st.ghost["self"] = arg(1)
                ctx.job(f, ConnectMonitor, setup=setup, label=f.dem, sequential=True,
                        models=lambda: Models(extra={"xdispatch::signal::connect": connect_model}))
            elif f.key == "xdispatch::signal::connect" and len(f.di) == 3:
                t = p.types[strip(p, f.di[2])].name
                if not t.startswith("xdispatch::signal<"):
                    continue
                cons += 1

                def setup(eng, st, f, a):
                    st.ghost["callable"] = (2, False)
                    st.ghost["other"] = 2
                    st.ghost["self"] = THIS
                ctx.job(f, ConnectMonitor, setup=setup, label=f.dem, sequential=True,
                        opaque={RAISE: None},
                        models=lambda: Models(extra={"xdispatch::signal::connect": connect_model}))
        ctx.floor("wrappers", wraps, 8)
        ctx.floor("submission overloads", subs, 7)
        ctx.floor("connection overloads", cons, 4)
        ctx.run()
        ctx.floor("executions", ctx.fact("executions"), 20)
        ctx.floor("calls of wrapped callables", ctx.fact("calls"), 20)
        ctx.counts.update({"wrappers": wraps, "submission_overloads": subs, "connection_overloads": cons,
                           "calls_judged": ctx.fact("calls"), "parameters_judged": ctx.fact("parameters")})


TARGETS = {
    "xdrv::queue_async": ((QUEUE_IMPL, "async"), 1, ()),
    "xdrv::queue_apply": ((QUEUE_IMPL, "apply"), 2, (1,)),
    "xdrv::queue_after": ((QUEUE_IMPL, "after"), 2, (1,)),
    "xdrv::group_async": ((GROUP_IMPL, "async"), 2, ()),
    "xdrv::group_async_priority": ((GROUP_IMPL, "async"), 2, ()),
    "xdrv::group_notify": ((GROUP_IMPL, "notify"), 2, ()),
    "xdrv::timer_handler": ((TIMER_IMPL, "handler"), 1, ()),
    "xdrv::notifier_handler": ((NOTIFIER_IMPL, "handler"), 1, ()),
}
