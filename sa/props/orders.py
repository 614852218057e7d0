"""P29: orderings and atomicity of accesses to atomic variables."""
from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import BASE_ASSUMPTIONS, THIS
from props.entries import entries
from props.locks import own_class

WEAK_READ = ("relaxed", "unordered", "monotonic", "release")
WEAK_WRITE = ("relaxed", "unordered", "monotonic", "acquire", "consume")


def symbols(v, out):
    if type(v) is tuple and v:
        if v[0] in ("y#", "S#"):
            out.add(v)      # (the rest names where it comes from)
            if v[0] == "y#" and type(v[1]) is tuple and v[1][:1] == ("op",):
                for x in v[1][2:4]:
                    symbols(x, out)
            return out
        for x in v:
            symbols(x, out)
    return out


def knowledge(st, v):
    """what is known about a value"""
    out = []
    for s in sorted(symbols(v, set()), key=repr):
        out.append((s, st.iv.get(s), frozenset(st.ne.get(s, ())), s in st.nn,
                    tuple(sorted((repr(k) for k in st.rel if mentions(k, s)))),
                    tuple(sorted((repr(k) + repr(x) for k, x in st.bf.items() if mentions(k, s))))))
    return tuple(out)


def learned(st, v, known):
    """more is known about a value than before, i.e. something got decided by it"""
    for (s, iv, ne, nn, rel, bf), (s0, iv0, ne0, nn0, rel0, bf0) in zip(knowledge(st, v), known):
        if s != s0:
            return False        # merged with others
        lo, hi = iv or (-INF, INF)
        lo0, hi0 = iv0 or (-INF, INF)
        if lo > lo0 or hi < hi0 or not ne <= ne0 or nn and not nn0 or set(rel) - set(rel0) or set(bf) - set(bf0):
            return True
    return len(knowledge(st, v)) != len(known)


def mentions(k, s):
    if k == s:
        return True
    return type(k) is tuple and k[:1] not in (("y#",), ("S#",)) and any(mentions(x, s) for x in k)


class OrderMonitor(Monitor):
    wants_mem = True

    def __init__(self, f):
        self.f = f
        self.data = {"sites": {}, "weak": {}, "published": {}}

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def start(self, eng, st):
        g = st.ghost
        g["weak"] = ()          # (location, value, what was known about it)
        g["seen"] = ()          # (location, value, ...) of plain atomic reads
        g["wrote"] = 0          # shared data was changed without a lock
        g["nolock"] = 1

    def name(self, eng, st, ptr):
        if not is_ptr(ptr):
            return None
        oc = own_class(eng, st, ptr[1], ptr[2])
        return oc[0].split("::")[-1] + "::" + oc[1] if oc else None

    def loc(self, ptr):
        return (ptr[1], ptr[2])

    def shared(self, eng, st, ptr):
        return is_ptr(ptr) and eng.is_shared(st, ptr[1])

    # ------------------------------------------------------------------
    def read(self, eng, st, ptr, v, order):
        g = st.ghost
        if order in WEAK_READ:
            n = self.name(eng, st, ptr)
            g["weak"] = tuple(w for w in g["weak"] if w[0] != self.loc(ptr) and
                              self.name(eng, st, ("p",) + w[0]) != n) + \
                ((self.loc(ptr), v, knowledge(st, v)),)
        else:
            self.strong(st, ptr)

    def strong(self, st, ptr):
        g = st.ghost
        g["weak"] = tuple(w for w in g["weak"] if w[0] != self.loc(ptr))

    def write(self, eng, st, ptr, order):
        self.count("atomic writes")
        if st.ghost["wrote"]:
            self.data["published"].setdefault(self.name(eng, st, ptr), eng.site(st))
        if order in WEAK_WRITE and st.ghost["wrote"] and not st.locks:
            return eng.violate(st, "%s is written without release ordering, what was written before may not be "
                                   "visible to whoever reads it" % (self.name(eng, st, ptr) or "an atomic variable"))

    def effect(self, eng, st):
        """something happens which may depend on what others wrote"""
        g = st.ghost
        for loc, v, known in g["weak"]:
            if st.locks:
                # taken to be decided under the lock
                g["weak"] = tuple(w for w in g["weak"] if w[0] != loc)
            elif learned(st, v, known):
                self.data["weak"].setdefault(self.name(eng, st, ("p", loc[0], loc[1])), (eng.site(st), eng.entry))
                g["weak"] = tuple(w for w in g["weak"] if w[0] != loc)

    def event(self, eng, st, kind, *a):
        g = st.ghost
        if kind == "TERMINATE":
            st.dead = True
        elif kind == "ALOAD":
            if not self.shared(eng, st, a[0]):
                return
            self.count("atomic reads")
            self.site(eng, st, a[0])
            self.read(eng, st, a[0], a[1], a[2])
            if not st.dead:
                n = self.name(eng, st, a[0])
                g["seen"] = tuple(s for s in g["seen"] if s[0] != self.loc(a[0]) and
                                  self.name(eng, st, ("p",) + s[0]) != n) + \
                    ((self.loc(a[0]), a[1], knowledge(st, a[1])),)
        elif kind == "ASTORE":
            if not self.shared(eng, st, a[0]):
                return
            self.site(eng, st, a[0])
            self.split(eng, st, a[0], a[1])
            if not st.dead:
                self.write(eng, st, a[0], a[2])
        elif kind == "RMW":
            if not self.shared(eng, st, a[0]):
                return
            self.site(eng, st, a[0])
            self.write(eng, st, a[0], a[5])
            if not st.dead:
                self.read(eng, st, a[0], a[3], a[5])
                self.forget(st, a[0])
        elif kind == "CAS":
            if not self.shared(eng, st, a[0]):
                return
            self.site(eng, st, a[0])
            if a[3]:
                self.write(eng, st, a[0], a[6][0])
                if not st.dead:
                    self.read(eng, st, a[0], a[1], a[6][0])
                    self.forget(st, a[0])
            else:
                self.read(eng, st, a[0], a[5], a[6][1])
        elif kind in ("SPLOAD",):
            # (those at the end of chains of objects change while following it)
            if is_ptr(a[0]) and a[0][1] == THIS and all(x[0] != self.loc(a[0]) for x in g["seen"]):
                g["seen"] += ((self.loc(a[0]), None, ()),)
        elif kind == "SPSTORE":
            self.sp_split(eng, st, a)
        elif kind in ("SPXCHG", "SPCAS"):
            if is_ptr(a[0]):
                self.forget(st, a[0])
        elif kind in ("EXEC", "UCALL", "ICALL", "VCALL"):
            self.effect(eng, st)
            if not st.locks:
                g["wrote"] = 1
        elif kind in ("LOAD", "STORE"):
            if not self.shared(eng, st, a[0]) or type(a[0][2]) is not int:
                return
            if eng.const_loc(st, a[0][1], a[0][2]):
                return
            self.effect(eng, st)
            if kind == "STORE" and not st.locks:
                g["wrote"] = 1
        elif kind in ("CINSERT", "CPOP", "CERASE", "CSWAP", "CMOVE", "ENQ"):
            if not st.locks and self.shared(eng, st, a[0]):
                self.effect(eng, st)
                g["wrote"] = 1
        elif kind in ("LOCK",):
            # whatever is decided afterwards is decided under the lock
            g["weak"] = ()
            g["seen"] = ()

    def forget(self, st, ptr):
        g = st.ghost
        g["seen"] = tuple(s for s in g["seen"] if s[0] != self.loc(ptr))

    def site(self, eng, st, ptr):
        n = self.name(eng, st, ptr)
        if n:
            self.data["sites"].setdefault((n, eng.site(st)))

    def split(self, eng, st, ptr, v):
        if st.locks:
            return
        g = st.ghost
        for loc, old, known in g["seen"]:
            if loc != self.loc(ptr):
                continue
            if symbols(old, set()) & symbols(v, set()):
                return eng.violate(st, "%s is changed by a read and a separate write, a change by somebody else between "
                                       "them gets lost" % (self.name(eng, st, ptr) or "an atomic variable"))
            if learned(st, old, known) and eng.cmp_truth(st, "eq", old, v) is False:
                return eng.violate(st, "%s is tested and set separately, somebody else may pass the same test" % (
                    self.name(eng, st, ptr) or "an atomic variable"))

    def sp_split(self, eng, st, a):
        if st.locks or not is_ptr(a[0]):
            return
        g = st.ghost
        # (following a chain of shared pointers to its end loses nothing)
        fresh = is_ptr(a[1]) and (a[1][1][0] == "H#" or a[1][1][0] == "S#" and str(a[1][1][1]).startswith(repr((eng.argname,))[:-2]))
        for loc, old, known in g["seen"]:
            if loc == self.loc(a[0]) and fresh:
                return eng.violate(st, "%s is replaced by a read and a separate write, what somebody else stored between "
                                       "them gets lost" % (self.name(eng, st, a[0]) or "a shared pointer"))


class P29(Spec):
    id = "P29"
    requires = ("P14", "P16", "P02", "P04")
    technique = "abstract interpretation with dataflow of atomic accesses and their orderings"
    explanation = (
        "Abstract interpretation of every function of the library: each access of an atomic variable is followed along "
        "with what is done depending on its value and what was written before it.")
    rules = (
        "a value read from an atomic variable without acquire ordering does not decide about accesses of shared data or "
        "calls of user code outside of locks",
        "an atomic variable is written with release ordering after shared data was changed outside of locks or user code "
        "was called",
        "no atomic variable or atomically accessed shared pointer is tested or read and written separately",
        "decisions spanning several atomic variables: see the rules of P14, P16, P02 and P04 on sequential consistency",
    )
    assumptions = BASE_ASSUMPTIONS + ["consume is at least as strong as acquire, as compilers implement it"]

    def check(self, ctx):
        n = 0
        for f in entries(ctx):
            if "xdrv" in f.dem:
                continue
            n += 1
            ctx.job(f, lambda f=f: OrderMonitor(f), label=f.dem + " " + f.name)
        ctx.floor("functions", n, 60)
        sites = set()
        weak, published = {}, {}
        for r in ctx.run():
            sites |= set(r["data"]["sites"])
            weak.update(r["data"]["weak"])
            published.update(r["data"]["published"])
        for n in sorted(set(weak) & set(published), key=str):
            site, entry = weak[n]
            ctx.violate("what is done depends on a value of %s read without acquire ordering, data is handed on by writing "
                        "it at %s" % (n or "an atomic variable", published[n]), site, entry)
        ctx.counts["atomic variables handing on data"] = len(published)
        ctx.counts["accesses of atomic variables"] = len(sites)
        ctx.samples += ["%s at %s" % s for s in sorted(sites)[:40]]
        ctx.floor("accesses of atomic variables", len(sites), 10)
