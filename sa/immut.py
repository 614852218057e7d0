"""Flow insensitive scan of all functions for writes to members, finds those
which are never written after the construction of their object."""
from ir import *


# hands its arguments on to constructors
FORWARDING = ("_ZSt11make_shared", "_ZSt11make_unique", "_ZSt15allocate_shared")


class Typer:
    """types of the pointers computed in a function: register -> (class, offset)"""

    def __init__(self, p, f):
        self.p = p
        self.f = f
        self.t = {}
        self.vt = {}        # register -> (class, offset into its vtable)
        self.vf = {}        # register -> (class, slot) of a virtual function
        self.run()

    def argtypes(self):
        f, p = self.f, self.p
        di = list(f.di)
        if di:
            di.pop(0)
        irs = list(range(len(f.args)))
        out = {}
        if irs and f.argattrs and f.argattrs[0] == "sret":
            if f.di:
                out[f.args[0]] = (p.canon(f.di[0]), 0)
            irs.pop(0)
        for k, i in enumerate(irs):
            if k < len(di):
                c = p.canon(di[k])
                if c < 0:
                    continue
                t = p.types[c]
                if t.tag in (TAG_PTR, TAG_REF, TAG_RREF):
                    out[f.args[i]] = (p.canon(t.base), 0)
                elif p.is_class(c):
                    out[f.args[i]] = (c, 0)
        return out

    def place(self, x):
        """(class, offset) of a pointer operand or None"""
        if type(x) is int:
            return self.t.get(x)
        if type(x) is list:
            if x[0] == "g":
                g = self.p.globals.get(x[1])
                if g and "di" in g:
                    return (self.p.canon(g["di"]), 0)
            if x[0] == "off":
                b = self.place(x[1])
                return (b[0], b[1] + x[2]) if b else None
        return None

    def pointee_at(self, pl):
        c, off = pl
        if c < 0:
            return None
        path, t, const, rest = self.p.leaf(c, off)
        if t < 0 or rest:
            return None
        tt = self.p.types[t]
        if tt.tag in (TAG_PTR, TAG_REF, TAG_RREF):
            b = self.p.canon(tt.base)
            return (b, 0) if b >= 0 else None
        return None

    def run(self):
        self.t = self.argtypes()
        for _ in range(3):
            n = len(self.t)
            for b in self.f.blocks:
                for ins in b:
                    d = ins[1]
                    if d < 0 or d in self.t:
                        continue
                    r = None
                    op = ins[0]
                    if op == "gep":
                        pl = self.place(ins[4])
                        if type(ins[4]) is int and ins[4] in self.vt and not ins[6]:
                            c, o = self.vt[ins[4]]
                            self.vt[d] = (c, o + ins[5])
                        if pl is not None and not ins[6]:
                            r = (pl[0], pl[1] + ins[5])
                    elif op in ("load", "aload"):
                        pl = self.place(ins[4])
                        if type(ins[4]) is int and ins[4] in self.vt:
                            c, o = self.vt[ins[4]]
                            self.vf[d] = (c, o // 8)
                        if pl is not None and ins[6] == "p":
                            r = self.pointee_at(pl)
                            if r is not None and self.p.types[r[0]].name == "__vtbl_ptr_type":
                                r = None
                                self.vt[d] = (pl[0], 0)
                    elif op in ("call", "invoke"):
                        cal = ins[4]
                        if type(cal) is list and cal[0] == "f":
                            g = self.p.funcs.get(cal[1])
                            if g is not None and g.di and ins[6] == "p":
                                c = self.p.pointee(g.di[0])
                                if c >= 0:
                                    r = (c, 0)
                    elif op == "phi":
                        for pb, v in ins[4:]:
                            r = self.place(v)
                            if r:
                                break
                    elif op == "select":
                        r = self.place(ins[5]) or self.place(ins[6])
                    elif op == "op" and ins[4] in ("bitcast", "freeze"):
                        r = self.place(ins[5][0])
                    if r is not None:
                        self.t[d] = r
            if len(self.t) == n:
                break


def ir_params(p, g):
    """IR argument index -> debug type"""
    di = list(g.di)
    if di:
        di.pop(0)
    irs = list(range(len(g.args)))
    if irs and g.argattrs and g.argattrs[0] == "sret":
        irs.pop(0)
    return {i: di[k] for k, i in enumerate(irs) if k < len(di)}


def mutable_members(ctx):
    """(class id, member) -> functions writing it outside of constructors"""
    p = ctx.p
    out = {}
    for f in p.funcs.values():
        life = f.ctor or "~" in f.base
        own = p.canon(f.cls) if f.cls >= 0 else -1
        ty = Typer(p, f)

        def mark(pl, derefs=False):
            if pl is None or pl[0] < 0 or not p.is_class(pl[0]):
                return
            if life and pl[0] == own:
                return
            path, t, const, rest = p.leaf(pl[0], pl[1])
            for name, owner in path:
                if name:
                    out.setdefault((owner, name), set()).add(f.name)
        for b in f.blocks:
            for ins in b:
                op = ins[0]
                if op == "store":
                    mark(ty.place(ins[4]))
                elif op in ("astore", "rmw", "cmpxchg"):
                    mark(ty.place(ins[4]))
                elif op in ("call", "invoke"):
                    cal = ins[4]
                    if type(cal) is not list or cal[0] != "f":
                        vf = ty.vf.get(cal) if type(cal) is int else None
                        v = p.virtual_at(*vf) if vf else None
                        di = list(v[3][1:]) if v else []
                        first = 1 if len(ins) > 8 and ins[8] else 0
                        for i, a in enumerate(ins[5][1:], 1):
                            pl = ty.place(a)
                            if not pl or not pl[1]:
                                continue
                            k = i - first
                            c = p.canon(di[k]) if 0 <= k < len(di) else -1
                            if c >= 0 and p.types[c].tag in (TAG_PTR, TAG_REF, TAG_RREF) and \
                                    p.is_const(p.types[c].base):
                                continue
                            mark(pl)
                        continue
                    n = cal[1]
                    if n.startswith(FORWARDING):
                        continue
                    if n.startswith("llvm."):
                        if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                            mark(ty.place(ins[5][0]))
                        continue
                    g = p.funcs.get(n) or p.decls.get(n)
                    par = ir_params(p, g) if g is not None and g.blocks is not None else {}
                    for i, a in enumerate(ins[5]):
                        pl = ty.place(a)
                        if pl is None:
                            continue
                        d = par.get(i)
                        if d is not None:
                            c = p.canon(d)
                            if c >= 0 and p.types[c].tag in (TAG_PTR, TAG_REF, TAG_RREF):
                                if p.is_const(p.types[c].base):
                                    continue
                                if pl[1] == 0 and p.canon(p.types[c].base) == pl[0]:
                                    continue    # the object itself
                            elif c >= 0 and not p.is_class(c):
                                continue
                        elif g is not None and g.blocks is None and i == 0 and pl[1] == 0:
                            continue
                        if d is None and g is not None and g.blocks is None and "K" in n[:5]:
                            continue
                        mark(pl)
    return out
