"""P27: null operations and implementations are rejected by the call."""
import os

from engine import *
from ir import *
from models import Models
from props import Spec
from props.common import BASE_ASSUMPTIONS, deref
from props.queues import backend_model

BACKEND = "xdispatch::ibackend"
SAFE = ("backend", "implementation", "label")


def pointee(p, tid):
    """name of the class a shared_ptr handed by reference or value points to"""
    c = p.canon(tid)
    if c < 0:
        return None
    t = p.types[c]
    if t.tag in (TAG_REF, TAG_RREF) and t.base >= 0:
        c = p.canon(t.base)
        if c < 0:
            return None
        t = p.types[c]
    if not t.name.startswith("std::shared_ptr<"):
        return None
    return t.name[len("std::shared_ptr<"):].rstrip(">").strip()


def checked(name):
    return name is not None and name.startswith("xdispatch::") and \
        ("operation" in name.split("<")[0] or name.split("<")[0].endswith("_impl"))


class NullMonitor(Monitor):
    wants_mem = True

    def __init__(self, f, what):
        self.f = f
        self.what = what

    def count(self, what, n=1):
        self.facts[what] = self.facts.get(what, 0) + n

    def event(self, eng, st, kind, *a):
        if kind == "TERMINATE":
            self.count("rejections")
            st.dead = True
        elif kind == "NULLDEREF":
            return eng.violate(st, "%s is dereferenced instead of being rejected" % self.what)
        elif kind == "RETURN":
            return eng.violate(st, "%s is accepted" % self.what)
        elif kind == "UNWIND":
            self.count("rejections")
        elif kind == "VCALL" and a[0].startswith("xdispatch::") and a[1] not in SAFE and not a[1].startswith("create_"):
            return eng.violate(st, "%s is used before being rejected (%s)" % (self.what, a[1]))
        elif kind in ("CINSERT", "CKINSERT", "UCALL", "EXEC", "NOTIFY", "THREAD"):
            return eng.violate(st, "%s is used before being rejected (%s)" % (self.what, kind))


class P27(Spec):
    id = "P27"
    explanation = (
        "Abstract interpretation of every public member function taking a shared pointer to an operation or an "
        "implementation, with a null pointer in each such argument in turn.")
    rules = (
        "with a null pointer no path returns normally: it ends in the assertion handler or by an exception",
        "before that no call of an implementation, no insertion into a container, no notification and no call of user "
        "code happens, nor is null dereferenced",
    )
    assumptions = BASE_ASSUMPTIONS + ["assertions are enabled in every build of the library, as they are here"]
    technique = "abstract interpretation of LLVM IR, enumerating the public signatures of the type-checked program"

    def check(self, ctx):
        p = ctx.p
        n = 0
        classes = set()
        for f in sorted(p.funcs.values(), key=lambda f: f.dem):
            if f.cls < 0 or not f.blocks or "xdrv" in f.dem or "lambda" in f.dem:
                continue
            t = p.types[p.canon(f.cls)]
            cn = t.name.split("<")[0]
            if not cn.startswith("xdispatch::") or "::" in cn[len("xdispatch::"):]:
                continue
            if not os.path.dirname(os.path.normpath(t.file)).endswith("/include/xdispatch") or is_interface(p, t):
                continue
            k = 1 if f.argattrs and f.argattrs[0] == "sret" else 0
            di = f.di[1:]
            for i, tid in enumerate(di):
                w = pointee(p, tid)
                if not checked(w) or f.artificial or converts(p, f):
                    continue
                n += 1
                classes.add(cn)
                self.job(ctx, f, i + k, w)
        ctx.floor("arguments which must not be null", n, 8)
        ctx.counts["public classes taking such arguments"] = len(classes)
        ctx.samples += sorted(classes)
        for need in ("xdispatch::queue", "xdispatch::group", "xdispatch::timer", "xdispatch::socket_notifier"):
            if need not in classes:
                raise Broken("no argument of %s recognised" % need)
        ctx.run()
        if not ctx.fact("rejections") and not ctx.violations:
            raise Broken("no rejections observed")

    def job(self, ctx, f, i, w):
        what = "a null pointer to %s handed to %s" % (w.split("<")[0].split("::")[-1], f.dem.split("(")[0])

        def setup(eng, st, f, a):
            v = deref(eng, st, a[i])
            eng.assume_cmp(st, "eq", v, 0)
            if f.base not in ("~",) and not f.ctor:
                others(eng, st, f, a)

        def others(eng, st, f, a):
            # handles always have an implementation
            this = a[1] if f.argattrs and f.argattrs[0] == "sret" else a[0]
            for off, name in impl_members(ctx.p, f.cls):
                v = eng.load(st, ("p", this[1], this[2] + off), 8, "p")
                if is_ptr(v):
                    eng.assume_cmp(st, "ne", v, 0)
        m = {BACKEND + "::" + v: created for v in {x[1] for x in ctx.cls(BACKEND).virtuals}
             if v.startswith("create_")}
        m["xdispatch::backend_for_type"] = backend_model
        ctx.job(f, lambda: NullMonitor(f, what), setup=setup, models=lambda: Models(m), label="%s, argument %d" % (f.dem, i))


def impl_members(p, cls):
    from props.common import member_offsets
    out = member_offsets(p, cls, lambda n: n.startswith("std::shared_ptr<xdispatch::") and "_impl" in n)
    for off, n in member_offsets(p, cls, lambda n: n == "xdispatch::queue"):
        for o, m in member_offsets(p, p.by_name["xdispatch::queue"].id,
                                   lambda n: n.startswith("std::shared_ptr<xdispatch::") and "_impl" in n):
            out.append((off + o, m))
    return out


def converts(p, f):
    """merely yields another handle of the same object"""
    return bool(f.di) and f.di[0] >= 0 and checked(pointee(p, f.di[0]))


def created(eng, st, c, a):
    """backends yield an object or throw, see P19"""
    eng.havoc(st, "virtual call")
    eng.make_symbolic(st, a[0], -1)
    v = eng.load(st, a[0], 8, "p")
    if not eng.assume_cmp(st, "ne", v, 0) or st.dead:
        return False
    return eng.ret(st, c, None)


def is_interface(p, t):
    """only pure virtual functions to be implemented elsewhere"""
    return t.name.split("::")[-1].startswith("i") and t.name.endswith(("_impl", "backend"))
