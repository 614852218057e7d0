"""P26: exceptions of user code."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import BASE_ASSUMPTIONS, THIS
from props.entries import entries

CANCELABLE = "xdispatch::cancelable"


def enter(eng, st, c, a):
    def yes(s):
        eng.emit(s, "ENTER", a[0])
        return "DEAD" if s.dead else 1
    return eng.fork(st, c, [yes, lambda s: 0])


def leave(eng, st, c, a):
    eng.emit(st, "LEAVE", a[0])
    if st.dead:
        return False
    return eng.ret(st, c, None)


MODELS = {CANCELABLE + "::enter": enter, CANCELABLE + "::leave": leave}


class ThrowMonitor(Monitor):
    exec_throws = True
    wants_mem = True

    def __init__(self, f):
        self.f = f
        self.dtor = "~" in f.base
        self.data = {"undone": set(), "left": {}, "late": set(), "owed": {}}

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["thrown"] = 0
        g["scopes"] = ()
        g["held"] = tuple(st.locks)
        g["set"] = ()               # what was set before user code is called
        g["kept"] = ()              # ... and has not been set back since
        g["user"] = 0
        # elements removed from containers compared to operations executed,
        # -1: an operation executed is still to be removed
        g["removed"] = ()
        g["others"] = 0

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "STORE":
            if is_ptr(a[0]) and a[0][1][0] == "S#" and type(a[0][2]) is int:
                self.stored(eng, st, (a[0][1], a[0][2]), a[1])
        elif kind in ("EXEC", "UCALL", "ICALL"):
            g["user"] = 1
            g["kept"] = tuple(sorted(set(g["kept"]) | set(g["set"]), key=repr))
            if kind == "EXEC":
                g["removed"] = tuple((loc, max(v - 1, -1)) for loc, v in g["removed"])
                g["others"] = -1
        elif kind == "CPOP" and is_ptr(a[0]) and a[0][1][0] == "S#":
            l = dict(g["removed"])
            loc = (a[0][1], a[0][2])
            v = l.get(loc, g["others"])
            if v < 0:
                self.data["late"].add(loc)
            l[loc] = min(v + 1, 1)
            g["removed"] = tuple(sorted(l.items(), key=repr))
        elif kind == "USERTHROW":
            g["thrown"] = 1
            self.count("exceptions thrown")
        elif kind == "TERMINATE":
            self.count("terminations")
            st.dead = True
        elif kind == "ENTER":
            g["scopes"] += (a[0],)
        elif kind == "LEAVE":
            l = list(g["scopes"])
            if a[0] not in l:
                if self.dtor:
                    return
                return eng.violate(st, "a scope is left which was not entered")
            l.remove(a[0])
            g["scopes"] = tuple(l)
        elif kind == "RETURN":
            if g["thrown"]:
                return eng.violate(st, "an exception thrown by user code is swallowed")
        elif kind == "UNWIND":
            self.count("exceptions passed on")
            if g["thrown"]:
                for loc, v in g["kept"]:
                    self.data["left"].setdefault(loc, (v, eng.site(st)))
                self.data["owed"].setdefault((g["removed"], g["others"]), eng.site(st))
            if tuple(st.locks) != g["held"]:
                return eng.violate(st, "a lock stays held when an exception passes")
            if g["scopes"]:
                return eng.violate(st, "a scope stays entered when an exception passes")


    def stored(self, eng, st, loc, v):
        g = st.ghost
        if type(v) is not int:
            g["set"] = tuple(x for x in g["set"] if x[0] != loc)
            g["kept"] = tuple(x for x in g["kept"] if x[0] != loc)
            return
        if (loc, v) in g["kept"] or (loc, v) in g["set"]:
            return
        for x in g["kept"]:
            if x[0] == loc:
                self.data["undone"].add(x)
        g["kept"] = tuple(x for x in g["kept"] if x[0] != loc)
        g["set"] = tuple(sorted([x for x in g["set"] if x[0] != loc] + [(loc, v)], key=repr))


class P26(Spec):
    id = "P26"
    requires = ("P25",)
    technique = "abstract interpretation of all functions including exception edges"
    explanation = (
        "Abstract interpretation of every function of the library following the exception edges as well: each call of "
        "an operation, handler or other user code is assumed to return or to throw.")
    rules = (
        "a path on which user code threw is left by the exception or ends the program, it never returns",
        "no lock is held and no cancelable scope is entered any more when an exception passes",
        "an operation removed from its container after having been executed is removed when it throws, too",
        "a member set to a constant while user code runs and set back when it returns is set back when it throws, too",
    )
    assumptions = BASE_ASSUMPTIONS + [
        "only user code throws; library functions which fail otherwise end the program",
        "exceptions leaving the function of a thread end the program (guaranteed by C++)",
        "resources of a group held for an operation which threw are not counted as consumed",
    ]

    def check(self, ctx):
        n = n2 = n3 = 0
        for f in entries(ctx, life=True):
            if "xdrv" in f.dem or f.key in MODELS:
                continue
            n += 1
            ctx.job(f, lambda f=f: ThrowMonitor(f), label=f.dem + " " + f.name, models=lambda: Models(MODELS))
        ctx.floor("functions", n, 60)
        for r in ctx.run():
            for loc in sorted(r["data"]["left"], key=repr):
                v, site = r["data"]["left"][loc]
                if (loc, v) in r["data"]["undone"]:
                    ctx.violate("what is set while user code runs is set back if this returns but stays set if it throws",
                                site, r["label"])
            n2 += len(r["data"]["undone"])
            late = r["data"]["late"]
            n3 += len(late)
            for (removed, others), site in sorted(r["data"]["owed"].items(), key=repr):
                if any(dict(removed).get(loc, others) < 0 for loc in late):
                    ctx.violate("an operation executed is removed from its container if it returns but stays in there "
                                "if it throws", site, r["label"])
                    break
        for what in ("exceptions thrown", "exceptions passed on"):
            if not ctx.fact(what) and not ctx.violations:
                raise Broken("no %s observed" % what)
        ctx.counts["flags set while user code runs"] = n2
        ctx.counts["containers operations stay in while executed"] = n3
