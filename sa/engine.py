"""Path sensitive abstract interpreter over the linked LLVM module.

A worklist explores abstract states (frames, memory, facts, held locks and the
state of a property automaton). States are merged when their canonical form is
equal, counters are generalised at loop heads. There is no solver and no
concrete execution: unknown branches are followed both ways."""
import sys
import time
from ir import *

sys.setrecursionlimit(20000)

INF = float("inf")
ATOMICS = ("aload", "astore", "rmw", "cmpxchg")
NULL = 0


class Budget(Exception):
    pass


class Broken(Exception):
    """the analysis cannot give an answer, e.g. an anchor vanished"""


def is_ptr(v):
    return type(v) is tuple and v[0] == "p"


def lin(v):
    """(symbol or None, constant) of a linear value or None"""
    t = type(v)
    if t is int:
        return (None, v)
    if t is tuple and v:
        if v[0] == "y#":
            return (v, 0)
        if v[0] == "+":
            return (v[1], v[2])
    return None


def mklin(s, k):
    if s is None:
        return k
    if k == 0:
        return s
    return ("+", s, k)


class Frame:
    __slots__ = ("f", "b", "i", "regs", "cs", "dst", "normal", "unwind", "locks", "tag", "csite")

    def copy(self):
        n = Frame()
        n.f = self.f; n.b = self.b; n.i = self.i; n.regs = dict(self.regs)
        n.cs = self.cs; n.dst = self.dst; n.normal = self.normal
        n.unwind = self.unwind; n.locks = self.locks; n.tag = self.tag
        n.csite = self.csite
        return n


class State:
    __slots__ = ("frames", "mem", "iv", "ne", "rel", "nn", "bf", "locks", "ghost",
                 "typ", "cnt", "trace", "esc", "conts", "snap", "visits", "exc", "pins", "dead")

    def copy(self):
        n = State()
        n.frames = [f.copy() for f in self.frames]
        n.mem = {o: dict(m) for o, m in self.mem.items()}
        n.iv = dict(self.iv)
        n.ne = dict(self.ne)
        n.rel = dict(self.rel)
        n.nn = set(self.nn)
        n.bf = dict(self.bf)
        n.locks = self.locks
        n.ghost = dict(self.ghost)
        n.typ = dict(self.typ)
        n.cnt = dict(self.cnt)
        n.trace = self.trace
        n.esc = set(self.esc)
        n.conts = self.conts
        n.snap = dict(self.snap)
        n.visits = dict(self.visits)
        n.exc = self.exc
        n.pins = self.pins
        n.dead = False
        return n


class Call:
    __slots__ = ("dst", "normal", "unwind", "site", "kind", "sret", "name", "nounwind", "f")


class Violation:
    def __init__(self, msg, site, trace, entry, stack):
        self.msg = msg
        self.site = site
        self.trace = trace
        self.entry = entry
        self.stack = stack


class Monitor:
    """base of the property automata, the state lives in st.ghost"""
    wants_mem = False       # LOAD/STORE events on shared memory
    wants_local = False      # events for objects nobody else knows, too
    exec_throws = False     # user code may throw
    injects = False         # inject(eng, st) is asked before each atomic access, it may let another thread run

    def start(self, eng, st):
        pass

    def event(self, eng, st, kind, *a):
        pass

    def end(self, eng, st, how):
        pass


NEGATE = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
          "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def fold(op, a, b, w=64):
    """constant folding, w is the width"""
    m = (1 << w) - 1

    def s(x):
        x &= m
        return x - (1 << w) if w > 1 and x >> (w - 1) else x
    try:
        if op == "add": return s(a + b)
        if op == "sub": return s(a - b)
        if op == "mul": return s(a * b)
        if op == "and": return s((a & m) & (b & m))
        if op == "or": return s((a & m) | (b & m))
        if op == "xor": return s((a & m) ^ (b & m))
        if op == "shl": return s(a << b)
        if op == "lshr": return s((a & m) >> b)
        if op == "ashr": return s(a >> b)
        if op == "udiv": return s((a & m) // (b & m))
        if op == "urem": return s((a & m) % (b & m))
        if op == "sdiv":
            q = abs(a) // abs(b)
            return s(q if (a < 0) == (b < 0) else -q)
        if op == "srem":
            r = abs(a) % abs(b)
            return s(r if a >= 0 else -r)
    except (ZeroDivisionError, ValueError):
        pass
    return None


def depth(v, n=0):
    if type(v) is not tuple or n > 24:
        return n
    return max([depth(x, n + 1) for x in v] or [n])


class Engine:
    def __init__(self, prog, monitor, models, opaque=(), budget=400000, verbose=False,
                 immutable=None, max_violations=6, vmodels=None, rely=None):
        self.p = prog
        self.mon = monitor
        self.models = models
        self.opaque = opaque
        self.budget = budget
        self.steps = 0
        self.const_locals = set()   # local variables which do not change once initialised
        self.verbose = verbose
        self.violations = []
        self.stack = []
        self.seen = {}
        self.cs_ids = {}
        self.entry = None
        self.entry_site = "?"
        self.paths = 0
        self.max_violations = max_violations
        self.immutable = immutable or (lambda cls, path: False)
        self.vmodels = vmodels or {}
        self.rely = rely
        self.arely = None
        self.sequential = False     # nobody else interferes
        self.recursion = 1
        self.unroll = 3             # iterations before widening
        self.keep_elements = None
        self.argname = "arg"
        self.private = set()
        self.functions = set()
        self.events = 0
        self.merged = 0
        self.unknown_calls = {}
        self.obligations = 0
        self.kinds = {}
        self.vkeys = set()

    # ---------------------------------------------------------------- setup
    def new_state(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.iv = {}
        st.ne = {}
        st.rel = {}
        st.nn = set()
        st.bf = {}
        st.locks = ()
        st.ghost = {}
        st.typ = {}
        st.cnt = {}
        st.trace = None
        st.esc = set()
        st.conts = ()
        st.snap = {}
        st.visits = {}
        st.exc = None
        st.pins = ()
        st.dead = False
        return st

    def new(self, st, tag, site):
        k = (tag, site)
        n = st.cnt.get(k, 0)
        st.cnt[k] = n + 1
        return (tag, site, n)

    def entry_args(self, st, f, this=None, dyn=True):
        """symbolic arguments as declared"""
        args = []
        di = list(f.di)
        ret = di.pop(0) if di else -1
        n = len(f.args)
        irs = list(range(n))
        vals = {}
        A = self.argname
        if n and f.argattrs[0] == "sret":
            o = ("A#", 0, "sret" + A[3:])
            st.typ[o] = ((0, self.p.canon(ret)),)
            st.mem[o] = {}
            vals[0] = ("p", o, 0)
            irs.pop(0)
        for k, i in enumerate(irs):
            ty = di[k] if k < len(di) else -1
            if len(di) != len(irs) and k > 0:
                # split arguments, types of those following are unknown
                if k >= len(di):
                    ty = -1
            c = self.p.canon(ty)
            t = self.p.types[c] if c >= 0 else None
            isthis = (k == 0 and f.cls >= 0 and t is not None and t.tag == TAG_PTR
                      and self.p.canon(t.base) == self.p.canon(f.cls) and not self.is_static(f))
            if isthis:
                if this is not None:
                    vals[i] = this
                else:
                    vals[i] = self.symbolic_this(st, f.cls, dyn)
            elif t is not None and t.tag in (TAG_PTR, TAG_REF, TAG_RREF):
                o = ("S#", (A, i), 0)
                b = self.p.canon(t.base)
                if b >= 0:
                    st.typ[o] = ((0, b),)
                if t.tag != TAG_PTR:
                    st.nn.add(o)
                    if t.tag == TAG_RREF or self.p.is_const(t.base):
                        self.private.add(o)     # not modified by others during the call
                vals[i] = ("p", o, 0)
            elif t is not None and self.p.is_class(c):
                # byval or coerced
                o = ("A#", 0, A + "%d" % i)
                st.typ[o] = ((0, c),)
                st.mem[o] = {}
                if self.p.sizeof(c) > 8 or f.argattrs[i] == "byval" or self.nontrivial(c):
                    o = ("S#", (A, i), 0)
                    st.typ[o] = ((0, c),)
                    st.nn.add(o)
                    self.private.add(o)
                    vals[i] = ("p", o, 0)
                else:
                    vals[i] = ("y#", (A, i), 0)
            else:
                s = ("y#", (A, i), 0)
                if t is not None:
                    self.type_bounds(st, s, c)
                vals[i] = s
        return [vals[i] for i in range(n)]

    def is_static(self, f):
        return False

    def nontrivial(self, c):
        t = self.p.types[c]
        return "shared_ptr" in t.name or "queue" in t.name or "string" in t.name

    def symbolic_this(self, st, cls, dyn=True, name="this"):
        o = ("S#", (name,), 0)
        c = self.p.canon(cls)
        st.typ[o] = ((0, c),)
        st.nn.add(o)
        m = st.mem.setdefault(o, {})
        if dyn:
            for b, off in self.p.bases_of(c):
                t = self.p.types[b]
                if any(n.startswith("_vptr") for n, _, _ in t.members):
                    vt = self.p.vtable(c, off)
                    if vt:
                        m[off] = (("p", ("G#", vt[0]), vt[1]), 8)
        return ("p", o, 0)

    def type_bounds(self, st, s, tid):
        c = self.p.canon(tid)
        if c < 0:
            return
        t = self.p.types[c]
        if t.tag == TAG_BASE:
            if t.name.startswith("unsigned") or t.name in ("char8_t", "char16_t", "char32_t"):
                st.iv[s] = (0, INF)
            elif t.name == "bool":
                st.iv[s] = (0, 1)
        elif t.tag == TAG_ENUM and t.enumerators:
            st.iv[s] = (min(e[1] for e in t.enumerators), max(e[1] for e in t.enumerators))

    def run_entry(self, f, args=None, setup=None, this=None, dyn=True, label=None):
        """explores one entry function"""
        st = self.new_state()
        self.entry = label or f.dem
        self.entry_site = "%s:%s" % (f.file, f.line) if f.file else f.dem
        self.seen = {}
        a = args
        if a is None:
            a = self.entry_args(st, f, this, dyn)
        if setup:
            r = setup(self, st, f, a)
            if r is not None:
                a = r
        self.mon.start(self, st)
        self.push_frame(st, f, a, None)
        self.explore(st)

    def explore(self, st):
        self.stack = [st]
        while self.stack:
            s = self.stack.pop()
            self.run(s)
            if len(self.violations) >= self.max_violations:
                self.stack = []

    # ---------------------------------------------------------------- frames
    def intern_cs(self, parent, site):
        k = (parent, site)
        r = self.cs_ids.get(k)
        if r is None:
            r = self.cs_ids[k] = len(self.cs_ids) + 1
        return r

    def push_frame(self, st, f, args, call, locks=None, tag=None):
        fr = Frame()
        fr.f = f
        fr.b = 0
        fr.i = 0
        fr.regs = dict(zip(f.args, args))
        top = st.frames[-1] if st.frames else None
        if len(st.frames) > 90:
            # unbounded recursion, e.g. destruction of nested symbolic objects
            raise Budget("recursion in " + f.dem)
        if top is not None:
            fr.cs = self.intern_cs(top.cs, (f.name, top.f.name, top.b, top.i, tag))
        else:
            fr.cs = self.intern_cs(0, (f.name, tag))
        fr.dst = call.dst if call else -1
        fr.normal = call.normal if call else None
        fr.unwind = call.unwind if call else None
        fr.locks = locks
        fr.tag = tag
        fr.csite = call.site if call else None
        if top is not None and call is not None:
            live = self.p.live_after(top.f, top.b, top.i)
            if len(live) < len(top.regs):
                top.regs = {k: v for k, v in top.regs.items() if k in live}
        if f.ctor and f.cls >= 0 and args and "~" not in f.base:
            t = args[0]
            if is_ptr(t):
                self.settype(st, t[1], t[2], f.cls)
        for k in [k for k in st.visits if k[0] == fr.cs]:
            del st.visits[k]
            st.snap.pop(k, None)
        st.frames.append(fr)
        if f.file and "/repo/" in f.file or "/frontend/" in f.file:
            self.functions.add(f.dem)
        return fr

    def settype(self, st, obj, off, cls):
        if obj[0] == "S#" and obj in st.typ:
            return
        c = self.p.canon(cls)
        cur = st.typ.get(obj, ())
        for o, t in cur:
            if o < off < o + self.p.sizeof(t) and not self.p.types[t].name.startswith("std::_Sp_counted"):
                return  # a member of what is known already
        for o, t in cur:
            if o == off:
                if self.p.base_offset(t, c) is not None:
                    return  # a derived class constructing its base
                if self.p.sizeof(t) > self.p.sizeof(c) and any(self.p.canon(w) == c for _, w in self.p.leaf(t, 0)[0]):
                    return  # constructing its first member
                cur = tuple(x for x in cur if x[0] != off)
                break
        st.typ[obj] = tuple(sorted(cur + ((off, c),)))

    def typeat(self, st, obj, off):
        """(class id, relative offset)"""
        t = obj[0]
        if t == "G#":
            g = self.p.globals.get(obj[1])
            if g and "di" in g:
                return (g["di"], off)
            return (-1, off)
        best = None
        for o, c in st.typ.get(obj, ()):
            if o <= off and (best is None or o > best[0]):
                if off < o + max(self.p.sizeof(c), 1) or o == off:
                    best = (o, c)
        if best is None:
            if obj[0] == "S#":
                e = st.typ.get(obj, ())
                if e:
                    return (e[0][1], off - e[0][0])
            return (-1, off)
        return (best[1], off - best[0])

    def cls_of(self, st, v):
        """name of the class a pointer points to"""
        if not is_ptr(v):
            return "?"
        c, o = self.typeat(st, v[1], v[2])
        if c < 0:
            return "?"
        c = self.p.canon(c)
        return self.p.types[c].name

    def field(self, st, obj, off):
        """(class, member path) of a memory location"""
        c, o = self.typeat(st, obj, off)
        if c < 0:
            if obj[0] == "G#":
                return ("global", self.p.globals.get(obj[1], {}).get("dem", obj[1]))
            return ("?", "%s" % (off,))
        c = self.p.canon(c)
        path, t, const, rest = self.p.leaf(c, o)
        if obj[0] == "G#":
            return ("global", self.p.globals[obj[1]]["dem"] + "." + ".".join(n for n, _ in path if n))
        return (self.p.types[c].name, ".".join(n for n, _ in path if n))

    def fname(self, st, obj, off):
        c, m = self.field(st, obj, off)
        return c.split("::")[-1] + "::" + m if c not in ("?", "global") else m

    # ---------------------------------------------------------------- events
    def site(self, st):
        """innermost location in /repo's (or the driver's) code"""
        for fr in reversed(st.frames):
            b = fr.f.blocks[fr.b]
            i = min(fr.i, len(b) - 1)
            if i >= 0:
                ins = b[i]
                if ins[2] >= 0:
                    s = self.p.site(ins)
                    if s.startswith("/repo/") or "/frontend/" in s:
                        return s
        if st.frames:
            return st.frames[-1].f.dem
        return self.entry_site

    def emit(self, st, kind, *a):
        self.events += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        st.trace = ((kind, a, self.site(st)), st.trace)
        self.mon.event(self, st, kind, *a)

    def note(self, st, text):
        st.trace = (("NOTE", (text,), self.site(st)), st.trace)

    def violate(self, st, msg, site=None):
        s = site or self.site(st)
        k = (msg, s)
        st.dead = True
        if k in self.vkeys:
            return
        self.vkeys.add(k)
        tr = []
        t = st.trace
        while t is not None:
            tr.append(t[0])
            t = t[1]
        tr.reverse()
        stack = [fr.f.dem for fr in st.frames]
        self.violations.append(Violation(msg, s, [(self.show_ev(st, e)) for e in tr][-80:],
                                         self.entry, stack))

    def show_ev(self, st, e):
        kind, a, site = e
        return "%s: %s %s" % (site, kind, " ".join(self.show(st, x) for x in a))

    def show(self, st, v):
        if is_ptr(v):
            try:
                f = self.field(st, v[1], v[2])
                return "&%s{%s}" % (self.showobj(v[1]), f[0].split("::")[-1] + ("::" + f[1] if f[1] else ""))
            except Exception:
                return str(v)
        if type(v) is tuple and v and v[0] == "c":
            return "(%s %s %s)" % (self.show(st, v[2]), v[1], self.show(st, v[3]))
        if type(v) is tuple and v and v[0] == "y#":
            return "$" + self.showobj(v)
        return str(v)

    def showobj(self, o):
        if type(o) is tuple:
            if o[0] in ("S#", "H#", "y#"):
                s = o[1]
                if type(s) is tuple and s and s[0] == "ld":
                    return "%s.%s" % (self.showobj(s[1]), s[2]) + ("'" * o[2] if type(o[2]) is int else "")
                return "%s%s" % (o[0][0], s if type(s) is not tuple else "/".join(str(x) for x in s)) + ("'" * o[2] if type(o[2]) is int else "")
            if o[0] == "A#":
                return "local%s" % (o[2],)
        return str(o)

    # ---------------------------------------------------------------- facts
    def bounds(self, st, s):
        return st.iv.get(s, (-INF, INF))

    def diff(self, st, a, b):
        """bounds of a-b for linear values"""
        sa, ka = a
        sb, kb = b
        if sa == sb:
            return (ka - kb, ka - kb)
        la, ha = self.bounds(st, sa) if sa is not None else (0, 0)
        lb, hb = self.bounds(st, sb) if sb is not None else (0, 0)
        lo = la - hb
        hi = ha - lb
        if sa is not None and sb is not None:
            r = st.rel.get((sa, sb))
            if r is not None and r < hi:
                hi = r
            r = st.rel.get((sb, sa))
            if r is not None and -r > lo:
                lo = -r
        return (lo + ka - kb, hi + ka - kb)

    def truth(self, st, c):
        t = type(c)
        if t is int:
            return c != 0
        if t is not tuple:
            return None
        if c[0] == "c":
            return self.cmp_truth(st, c[1], c[2], c[3])
        if c[0] == "not":
            r = self.truth(st, c[1])
            return None if r is None else not r
        if c[0] in ("y#", "+"):
            return self.cmp_truth(st, "ne", c, 0)
        if c[0] == "p":
            r = self.nullness(st, c)
            return None if r is None else not r
        return None

    def nullness(self, st, v):
        """True if null, False if not, None if unknown"""
        if v == 0:
            return True
        if not is_ptr(v):
            return None
        o = v[1]
        while o[0] == "PI#":
            o = o[1]
        if o[0] in ("S#",):
            if o in st.nn or v[2] != 0 and v[1][0] != "PI#":
                return False
            return None
        return False

    def cmp_truth(self, st, pred, a, b):
        if is_ptr(a) or is_ptr(b):
            if pred in ("eq", "ne"):
                r = self.ptr_eq(st, a, b)
                if r is None:
                    return st.bf.get(("c", "eq", a, b)) if pred == "eq" else (
                        None if st.bf.get(("c", "eq", a, b)) is None else not st.bf[("c", "eq", a, b)])
                return r if pred == "eq" else not r
            return st.bf.get(("c", pred, a, b))
        if type(a) is tuple and a[0] in ("c", "not") and type(b) is int:
            r = self.truth(st, a)
            if r is None:
                return None
            a = 1 if r else 0
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            if a == b and type(a) is tuple and a[0] != "u":
                if pred in ("eq", "sle", "sge", "ule", "uge"):
                    return True
                return False
            if type(a) is tuple and type(b) is tuple and a[0] == "f" and b[0] == "f":
                return (a == b) == (pred == "eq")
            if (type(a) is tuple and a[0] == "f" and b == 0) or (type(b) is tuple and b[0] == "f" and a == 0):
                return pred == "ne"
            return st.bf.get(("c", pred, a, b))
        lo, hi = self.diff(st, la, lb)
        if pred[0] == "u":
            def nonneg(x):
                s, k = x
                if s is None:
                    return k >= 0
                return self.bounds(st, s)[0] + k >= 0
            na, nb = nonneg(la), nonneg(lb)
            if na and nb:
                pred = "s" + pred[1:]
            elif la[0] is None and lb[0] is None:
                m = (1 << 64) - 1
                x, y = la[1] & m, lb[1] & m
                return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
            elif na and lb[0] is None and lb[1] < 0:
                return pred in ("ult", "ule")
            elif nb and la[0] is None and la[1] < 0:
                return pred in ("ugt", "uge")
            else:
                return st.bf.get(("c", pred, a, b))
        if pred == "eq" or pred == "ne":
            r = None
            if lo == hi == 0:
                r = True
            elif lo > 0 or hi < 0:
                r = False
            elif lb[0] is None and la[0] is not None and (lb[1] - la[1]) in st.ne.get(la[0], ()):
                r = False
            elif la[0] is None and lb[0] is not None and (la[1] - lb[1]) in st.ne.get(lb[0], ()):
                r = False
            elif la[0] is not None and lb[0] is not None:
                if ("d", la[0], lb[0], lb[1] - la[1]) in st.bf or ("d", lb[0], la[0], la[1] - lb[1]) in st.bf:
                    r = False
            if r is None:
                return None
            return r if pred == "eq" else not r
        if pred == "slt":
            return True if hi < 0 else False if lo >= 0 else None
        if pred == "sle":
            return True if hi <= 0 else False if lo > 0 else None
        if pred == "sgt":
            return True if lo > 0 else False if hi <= 0 else None
        if pred == "sge":
            return True if lo >= 0 else False if hi < 0 else None
        return None

    def ptr_eq(self, st, a, b):
        if a == b:
            return True
        if a == 0 or b == 0:
            v = b if a == 0 else a
            return self.nullness(st, v) if is_ptr(v) else None
        if not (is_ptr(a) and is_ptr(b)):
            return None
        oa, ob = a[1], b[1]
        if oa == ob:
            return a[2] == b[2] if type(a[2]) is int and type(b[2]) is int else None
        if oa[0] == "PI#" and ob[0] == "PI#":
            return self.ptr_eq(st, ("p", oa[1], 0), ("p", ob[1], 0))
        ta, tb = oa[0], ob[0]
        if ta != "S#" and tb != "S#":
            return False
        for x, y in ((oa, ob), (ob, oa)):
            if x[0] == "S#" and y[0] in ("A#", "H#") and y not in st.esc:
                return False
            if x[0] == "S#" and y[0] in ("END#", "G#", "E#", "VT#", "PI#"):
                return False
        return None

    def assume(self, st, c, val):
        """adds the fact that c has the given truth value, False if infeasible"""
        r = self.truth(st, c)
        if r is not None:
            return r == val
        if type(c) is not tuple:
            return True
        if c[0] == "not":
            return self.assume(st, c[1], not val)
        if c[0] in ("y#", "+"):
            return self.assume_cmp(st, "ne" if val else "eq", c, 0)
        if c[0] == "p":
            return self.assume_cmp(st, "ne" if val else "eq", c, 0)
        if c[0] == "c":
            pred = c[1] if val else NEGATE.get(c[1])
            if pred is None:
                st.bf[c] = val
                return True
            return self.assume_cmp(st, pred, c[2], c[3])
        return True

    def assume_cmp(self, st, pred, a, b):
        if is_ptr(a) or is_ptr(b):
            if pred == "ne":
                if a == 0 or b == 0:
                    v = b if a == 0 else a
                    o = v[1]
                    while o[0] == "PI#":
                        o = o[1]
                    st.nn.add(o)
                else:
                    st.bf[("c", "eq", a, b)] = False
                    st.bf[("c", "eq", b, a)] = False
                return True
            if pred == "eq":
                if a == 0 or b == 0:
                    v = b if a == 0 else a
                    o = v[1]
                    while o[0] == "PI#":
                        o = o[1]
                    self.subst_null(st, o)
                    return True
                if is_ptr(a) and is_ptr(b) and type(a[2]) is int and type(b[2]) is int:
                    while a[1][0] == "PI#" and b[1][0] == "PI#":
                        a = ("p", a[1][1], 0)
                        b = ("p", b[1][1], 0)
                    if a[1][0] == "S#" and not self.occurs(a[1], b[1]):
                        self.subst_obj(st, a[1], b[1], b[2] - a[2])
                    elif b[1][0] == "S#" and not self.occurs(b[1], a[1]):
                        self.subst_obj(st, b[1], a[1], a[2] - b[2])
                    else:
                        st.bf[("c", "eq", a, b)] = True
                    return True
            st.bf[("c", pred, a, b)] = True
            if pred in NEGATE:
                st.bf[("c", NEGATE[pred], a, b)] = False
            return True
        if type(a) is tuple and a[0] in ("c", "not") and type(b) is int:
            if pred == "eq":
                return self.assume(st, a, b != 0)
            if pred == "ne" and b in (0, 1):
                return self.assume(st, a, b == 0)
            return True
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            st.bf[("c", pred, a, b)] = True
            if pred in NEGATE:
                st.bf[("c", NEGATE[pred], a, b)] = False
            return True
        if pred[0] == "u":
            def nonneg(x):
                s, k = x
                return k >= 0 if s is None else self.bounds(st, s)[0] + k >= 0
            na, nb = nonneg(la), nonneg(lb)
            if not (na and nb):
                if nb and la[0] is not None and pred in ("ult", "ule"):
                    # a signed value tested with an unsigned comparison
                    if not self.narrow(st, la[0], -la[1], INF):
                        return False
                elif na and lb[0] is not None and pred in ("ugt", "uge"):
                    if not self.narrow(st, lb[0], -lb[1], INF):
                        return False
                else:
                    st.bf[("c", pred, a, b)] = True
                    st.bf[("c", NEGATE[pred], a, b)] = False
                    return True
            pred = "s" + pred[1:]
        sa, ka = la
        sb, kb = lb
        if pred == "eq":
            if sa is not None and sb is not None:
                self.subst_sym(st, sa, sb, kb - ka)
                return not st.dead
            s, v = (sa, kb - ka) if sa is not None else (sb, ka - kb)
            lo, hi = self.bounds(st, s)
            if not (lo <= v <= hi) or v in st.ne.get(s, ()):
                return False
            self.subst_sym(st, s, None, v)
            return not st.dead
        if pred == "ne":
            if sa is not None and sb is not None:
                # sa - sb != kb - ka
                d = kb - ka
                if st.rel.get((sa, sb)) == d:
                    return self.leq(st, la, lb, -1)
                if st.rel.get((sb, sa)) == -d:
                    return self.leq(st, lb, la, -1)
                st.bf[("d", sa, sb, d)] = True
                return True
            s, v = (sa, kb - ka) if sa is not None else (sb, ka - kb)
            lo, hi = self.bounds(st, s)
            if lo == v:
                return self.narrow(st, s, v + 1, INF)
            if hi == v:
                return self.narrow(st, s, -INF, v - 1)
            st.ne[s] = st.ne.get(s, frozenset()) | {v}
            return True
        # orderings: a - b <= c
        if pred == "slt":
            return self.leq(st, la, lb, -1)
        if pred == "sle":
            return self.leq(st, la, lb, 0)
        if pred == "sgt":
            return self.leq(st, lb, la, -1)
        if pred == "sge":
            return self.leq(st, lb, la, 0)
        return True

    def narrow(self, st, s, lo, hi):
        l, h = self.bounds(st, s)
        lo = max(l, lo)
        hi = min(h, hi)
        ne = st.ne.get(s, ())
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return False
        if lo == hi:
            st.iv[s] = (lo, hi)
            self.subst_sym(st, s, None, lo)
            return not st.dead
        if (lo, hi) != (l, h):
            st.iv[s] = (lo, hi)
        return True

    def leq(self, st, a, b, c):
        """a + . <= b + . + c"""
        sa, ka = a
        sb, kb = b
        c = c + kb - ka   # sa - sb <= c
        if sa is None:
            return self.narrow(st, sb, -c, INF)
        if sb is None:
            return self.narrow(st, sa, -INF, c)
        r = st.rel.get((sa, sb))
        if r is None or c < r:
            st.rel[(sa, sb)] = c
        la, ha = self.bounds(st, sa)
        lb, hb = self.bounds(st, sb)
        # sa <= sb + c
        if not self.narrow(st, sa, -INF, hb + c):
            return False
        if not self.narrow(st, sb, la - c, INF):
            return False
        back = st.rel.get((sb, sa))
        if back is not None:
            cur = st.rel.get((sa, sb))
            if cur is not None:
                if cur + back < 0:
                    return False
                if cur + back == 0:
                    self.subst_sym(st, sa, sb, cur)
                    return not st.dead
        return True

    def occurs(self, x, y):
        if x == y:
            return True
        if type(y) is tuple:
            return any(self.occurs(x, z) for z in y)
        return False

    # ---- substitution
    def subst(self, st, fn):
        """rewrites all values of the state with fn (applied to leaves)"""
        memo = {}

        def rw(v):
            if type(v) is not tuple or not v:
                return v
            r = memo.get(v)
            if r is not None:
                return r
            r = fn(v)
            if r is None:
                r = tuple([rw(x) for x in v])
                if r == v:
                    r = v
                else:
                    r = self.refold(r)
            memo[v] = r
            return r
        for fr in st.frames:
            fr.regs = {k: rw(v) for k, v in fr.regs.items()}
        nm = {}
        for o, m in st.mem.items():
            o2 = rw(o)
            if type(o2) is not tuple or o2 and o2[0] == "p":
                continue
            t = nm.setdefault(o2, {})
            for k, v in m.items():
                k2 = rw(k) if type(k) is tuple else k
                if k2 not in t or o2 == o:
                    t[k2] = rw(v)
        st.mem = nm
        st.typ = {rw(o): t for o, t in st.typ.items() if type(rw(o)) is tuple}
        st.ghost = {k: rw(v) for k, v in st.ghost.items()}
        st.conts = rw(st.conts)
        st.locks = rw(st.locks)
        st.pins = rw(st.pins)
        st.exc = rw(st.exc) if st.exc is not None else None
        for fr in st.frames:
            if fr.locks is not None:
                fr.locks = rw(fr.locks)
        st.nn = {rw(o) for o in st.nn}
        st.esc = {rw(o) for o in st.esc}
        bf = {}
        for c, v in st.bf.items():
            c2 = rw(c)
            bf[c2] = v
        st.bf = bf
        iv = {}
        for s, b in st.iv.items():
            s2 = rw(s)
            l = lin(s2)
            if l is None or l[0] is None:
                if l is not None and not (b[0] <= l[1] <= b[1]):
                    st.dead = True
                continue
            k = l[1]
            o = iv.get(l[0], (-INF, INF))
            iv[l[0]] = (max(o[0], b[0] - k), min(o[1], b[1] - k))
            if iv[l[0]][0] > iv[l[0]][1]:
                st.dead = True
        st.iv = iv
        ne = {}
        for s, b in st.ne.items():
            l = lin(rw(s))
            if l is None:
                continue
            if l[0] is None:
                if l[1] in b:
                    st.dead = True
                continue
            ne[l[0]] = ne.get(l[0], frozenset()) | frozenset(x - l[1] for x in b)
        st.ne = ne
        rel = {}
        todo = []
        for (a, b), c in st.rel.items():
            x, y = lin(rw(a)), lin(rw(b))
            if x is None or y is None:
                continue
            # x - y <= c
            d = c - x[1] + y[1]
            if x[0] is None and y[0] is None:
                if d < 0:
                    st.dead = True
            elif x[0] is None:
                todo.append((y[0], -d, INF))
            elif y[0] is None:
                todo.append((x[0], -INF, d))
            elif x[0] == y[0]:
                if d < 0:
                    st.dead = True
            else:
                k = (x[0], y[0])
                if k not in rel or d < rel[k]:
                    rel[k] = d
        st.rel = rel
        # snapshots refer to the values before
        st.snap = {k: (rwd(rw, v)) for k, v in st.snap.items()}
        for s, lo, hi in todo:
            if st.dead:
                return
            if not self.narrow(st, s, lo, hi):
                st.dead = True

    def refold(self, r):
        if r[0] == "+":
            l = lin(r[1])
            if l is not None:
                return mklin(l[0], l[1] + r[2])
            return r
        if r[0] == "y#" and type(r[1]) is tuple and r[1] and r[1][0] == "op":
            _, op, a, b, w = r[1]
            if type(a) is int and type(b) is int:
                x = fold(op, a, b, w)
                if x is not None:
                    return x
        if r[0] == "p":
            # ("p", X, off) where X became a pointer (object substitution)
            o = r[1]
            if type(o) is int:
                return 0
            if o[0] == "p":
                if type(o[2]) is int and type(r[2]) is int:
                    return ("p", o[1], o[2] + r[2])
                return ("p", o[1], r[2])
        if r[0] == "PI#":
            if r[1] == 0:
                return 0
            if type(r[1]) is tuple and r[1][0] == "p":
                o = r[1][1]
                if o[0] == "H#":
                    return ("p", o, 0)
                return ("PI#", o)
        if r[0] == "c" and len(r) == 4 and type(r[2]) is int and type(r[3]) is int:
            return r
        return r

    def subst_sym(self, st, s, t, k):
        """s := t + k"""
        rep = mklin(t, k)

        def fn(v):
            if v == s:
                return rep
            if v[0] == "+" and v[1] == s:
                return mklin(t, k + v[2])
            return None
        self.subst(st, fn)
        if t is None and type(s) is tuple and type(s[1]) is tuple and s[1] and s[1][0] == "op":
            # the operation may be done again
            st.iv[s] = (k, k)

    def subst_null(self, st, o):
        pi = ("PI#", o)

        def fn(v):
            if v[0] == "p" and (v[1] == o or v[1] == pi):
                return 0
            return None
        st.mem.pop(o, None)
        st.typ.pop(o, None)
        st.nn.discard(o)
        self.subst(st, fn)

    def subst_obj(self, st, o, n, delta):
        """o := n (+ delta)"""
        def fn(v):
            if v[0] == "p":
                if v[1] == o:
                    return ("p", n, v[2] + delta if type(v[2]) is int else v[2])
                if v[1] == ("PI#", o):
                    return ("p", n, 0) if n[0] == "H#" else ("p", ("PI#", n), 0)
            if v == o:
                return n
            return None
        old = st.mem.pop(o, None)
        t = st.typ.pop(o, None)
        if n not in st.typ and t and delta == 0:
            st.typ[n] = t
        if old:
            m = st.mem.setdefault(n, {})
            for k, v in old.items():
                if type(k) is int and k + delta not in m:
                    m[k + delta] = v
                elif type(k) is tuple and delta == 0 and k not in m:
                    m[k] = v
        self.subst(st, fn)

    # ---------------------------------------------------------------- memory
    def load(self, st, ptr, size, kind, quiet=False):
        if not is_ptr(ptr):
            if ptr == 0:
                return ("null-deref",)
            return self.fresh(st, ("unk",), kind)
        o, off = ptr[1], ptr[2]
        if type(off) is not int:
            return self.fresh(st, ("idx", o), kind)
        t = o[0]
        if t == "VT#":
            return ("vf", o[1], off)
        if t == "G#":
            g = self.p.globals.get(o[1])
            if g is not None and g.get("const") or (g is not None and o[1].startswith(("_ZTV", "_ZTI", "_ZTT"))):
                return self.load_const(st, g, o, off, size, kind)
        m = st.mem.get(o)
        if m is not None:
            e = m.get(off)
            if e is not None:
                if e[1] == size or size == -1:
                    return e[0]
                if type(e[0]) is int:
                    if size < e[1]:
                        return fold("add", e[0], 0, size * 8)
                    if size > e[1] and e[0] == 0 and all(
                            m.get(k, (0, 0))[0] == 0 for k in range(off, off + size) if k in m):
                        return 0
                if size == 1 and e[1] <= 4:
                    return e[0]
            else:
                # part of a wider constant
                for k in range(off - 8, off):
                    e = m.get(k)
                    if e is not None and k + e[1] > off and type(e[0]) is int:
                        sh = (off - k) * 8
                        return fold("add", (e[0] & ((1 << (e[1] * 8)) - 1)) >> sh, 0, size * 8)
        if t in ("A#", "H#") and o not in st.esc and m is not None and m.get("zero"):
            return 0
        v = self.lazy(st, o, off, size, kind)
        if t not in ("STR#",):
            st.mem.setdefault(o, {})[off] = (v, size)
        return v

    def load_const(self, st, g, o, off, size, kind):
        init = g["initmap"]
        e = init.get(off)
        if e is not None:
            if e[0] == "zero":
                return 0
            if e[0] == "str":
                s = e[1]
                return ord(s[0]) if s and size == 1 else ("y#", ("const", o[1], off), 0)
            return self.cval(e)
        for k in range(off, off - 4096, -1):
            e = init.get(k)
            if e is not None:
                if e[0] == "zero" and k + e[1] > off:
                    return 0
                if e[0] == "str" and size == 1:
                    i = off - k
                    return ord(e[1][i]) if i < len(e[1]) else 0
                break
        return ("y#", ("const", o[1], off), 0)

    def lazy(self, st, o, off, size, kind):
        """initial (unknown) content of a location"""
        c, rel = self.typeat(st, o, off)
        src = ("ld", o if depth(o) < 14 and not self.chain(o, off) else
               ("deep", self.p.tname(self.p.canon(c)) if c >= 0 else "?"), off)
        tid = -1
        name = ""
        if c >= 0 and type(rel) is int and rel >= 0:
            path, tid, const, rest = self.p.leaf(c, rel)
            name = path[-1][0] if path else ""
            owner = path[-1][1] if path else -1
            if rest != 0:
                tid = -1
        if kind == "p" or (tid >= 0 and self.p.types[tid].tag in (TAG_PTR, TAG_REF, TAG_RREF) and size == 8):
            if name.startswith("_vptr"):
                return ("p", ("VT#", o), 0)
            if name == "_M_pi":
                # control block: null exactly if the pointer is null
                pv = self.load(st, ("p", o, off - 8), 8, "p")
                if is_ptr(pv):
                    if pv[1][0] == "H#":
                        return ("p", pv[1], 0)
                    return ("p", ("PI#", pv[1]), 0)
                if pv == 0:
                    return 0
            s = self.new(st, "S#", src)
            if tid >= 0:
                b = self.p.pointee(tid)
                if b >= 0:
                    st.typ[s] = ((0, b),)
                if self.p.types[tid].tag != TAG_PTR:
                    st.nn.add(s)
            return ("p", s, 0)
        s = self.new(st, "y#", src)
        if tid >= 0:
            self.type_bounds(st, s, tid)
        if kind == "i1":
            st.iv[s] = (0, 1)
        return s

    def chain(self, o, off):
        """walking a linked structure"""
        n = 0
        while o[0] == "S#" and type(o[1]) is tuple and o[1] and o[1][0] == "ld" and o[1][2] == off:
            n += 1
            o = o[1][1]
            if o[0] == "deep":
                return True
            if n >= 2:
                return True
        return False

    def fresh(self, st, site, kind, tid=-1):
        if kind == "v":
            return None
        if kind == "p":
            s = self.new(st, "S#", site)
            if tid >= 0:
                b = self.p.pointee(tid)
                if b >= 0:
                    st.typ[s] = ((0, b),)
            return ("p", s, 0)
        if kind == "agg":
            return ("aggsym", self.new(st, "y#", site))
        s = self.new(st, "y#", site)
        if kind == "i1":
            st.iv[s] = (0, 1)
        if tid >= 0:
            self.type_bounds(st, s, tid)
        return s

    def store(self, st, ptr, v, size):
        if not is_ptr(ptr):
            return
        o, off = ptr[1], ptr[2]
        m = st.mem.setdefault(o, {})
        if type(off) is not int:
            # unknown index: forget what may be overwritten
            for k in [k for k in m if type(k) is int]:
                del m[k]
            return
        for k in range(off - 15, off + size):
            e = m.get(k)
            if e is not None and k != off and k + e[1] > off:
                if k < off or k + e[1] > off + size:
                    pass
                del m[k]
        if size == 8 and off + 8 not in m and o[0] in ("S#", "E#", "G#"):
            self.control(st, o, off)
        m[off] = (v, size)
        if self.is_shared(st, o):
            self.escape(st, v)

    def control(self, st, o, off):
        """the pointer of a shared_ptr is about to change: its (lazily resolved) control block does not"""
        c, rel = self.typeat(st, o, off)
        if c >= 0 and type(rel) is int and rel >= 0:
            path, tid, const, rest = self.p.leaf(c, rel)
            if path and rest == 0 and path[-1][0] == "_M_ptr" and not const:
                self.load(st, ("p", o, off + 8), 8, "p")

    def is_local(self, st, o):
        return o[0] in ("A#", "H#") and o not in st.esc

    def is_shared(self, st, o):
        t = o[0]
        if self.sequential:
            return False
        if t in ("S#",):
            return o not in self.private
        if t == "G#":
            g = self.p.globals.get(o[1])
            return not (g and g.get("tls"))
        if t in ("A#", "H#"):
            return o in st.esc
        if t == "E#":
            return self.is_shared(st, o[1]) if type(o[1]) is tuple and o[1] and type(o[1][0]) is str else True
        return False

    def escape(self, st, v):
        """a pointer became known to others"""
        work = [v]
        while work:
            x = work.pop()
            if type(x) is not tuple or not x:
                continue
            if x[0] == "p":
                o = x[1]
                if o[0] in ("A#", "H#") and o not in st.esc:
                    st.esc.add(o)
                    for k, e in list(st.mem.get(o, {}).items()):
                        if type(k) is int:
                            work.append(e[0])
            elif x[0] in ("agg",):
                work.extend(x[1:])

    def const_loc(self, st, o, off):
        """location never changes once constructed"""
        c, rel = self.typeat(st, o, off)
        if c < 0 or type(rel) is not int or rel < 0:
            return False
        c = self.p.canon(c)
        path, tid, const, rest = self.p.leaf(c, rel)
        if const:
            return True
        if path and path[-1][0].startswith("_vptr"):
            return True
        if path and self.p.types[path[-1][1]].name.startswith(("std::unique_lock", "std::lock_guard")):
            return True
        for n, owner in path:
            if n and self.immutable(owner, n):
                return True
        return False

    def havoc(self, st, why):
        """other threads or unknown code may have changed shared memory"""
        held = set()
        for l in st.locks:
            held.add(l[0])
        for o in list(st.mem):
            if not self.is_shared(st, o) or o in self.const_locals:
                continue
            if o in held or self.protected(st, o, held):
                continue
            m = st.mem[o]
            for k in list(m):
                if type(k) is int:
                    if o[0] == "E#":
                        continue
                    if self.const_loc(st, o, k):
                        continue
                    if o[0] in ("H#",) and k in (8, 12) and m[k][1] == 4:
                        # reference counts of shared objects
                        m[k] = (("many",), 4)
                        continue
                    if o[0] == "G#" and (st.ghost.get("keep_globals") or o[1].startswith("_ZGV") and
                                         self.cmp_truth(st, "ne", m[k][0], 0) is True):
                        continue
                    del m[k]
                elif type(k) is tuple and k[0] == "#":
                    if self.const_loc(st, o, k[1]):
                        continue
                    if self.rely is not None:
                        r = self.rely(self, st, o, k[1], m[k])
                        if r is not None:
                            m[k] = r
                            continue
                    del m[k]
            if not m:
                del st.mem[o]

    def protected(self, st, o, held):
        if o[0] == "E#":
            return o[1] in held
        return False

    def copy_mem(self, st, dst, src, n):
        if not is_ptr(dst) or not is_ptr(src):
            return
        so, soff, do, doff = src[1], src[2], dst[1], dst[2]
        if type(soff) is not int or type(doff) is not int or type(n) is not int:
            return
        sm = st.mem.get(so, {})
        # make what is known about the layout explicit
        c, rel = self.typeat(st, so, soff)
        if c >= 0 and so[0] in ("S#", "G#", "E#") and type(rel) is int and rel >= 0:
            k = 0
            while k < n:
                path, tid, const, rest = self.p.leaf(c, rel + k)
                sz = self.p.sizeof(tid) if tid >= 0 else 0
                if tid >= 0 and rest == 0 and sz in (1, 2, 4, 8):
                    self.load(st, ("p", so, soff + k), sz, "i%d" % (sz * 8))
                    k += sz
                else:
                    k += 1
            sm = st.mem.get(so, {})
        ent = [(k, e) for k, e in sm.items() if type(k) is int and soff <= k < soff + n]
        dm = st.mem.setdefault(do, {})
        for k in [k for k in dm if type(k) is int and doff <= k < doff + n]:
            del dm[k]
        for k, e in ent:
            dm[doff + k - soff] = e
            if self.is_shared(st, do):
                self.escape(st, e[0])
        if c >= 0 and type(rel) is int and do[0] in ("A#", "H#"):
            if do not in st.typ and rel == 0:
                st.typ[do] = ((doff, self.p.canon(c)),)

    # ---------------------------------------------------------------- values
    def cval(self, x):
        k = x[0]
        if k == "i":
            return x[1]
        if k == "f":
            return ("f", x[1])
        if k == "g":
            return ("p", ("G#", x[1]), 0)
        if k == "off":
            b = self.cval(x[1])
            if is_ptr(b):
                return ("p", b[1], b[2] + x[2])
            return b
        if k == "cast":
            return self.cval(x[1])
        if k == "z":
            return ("z",)
        if k == "agg":
            return ("agg",) + tuple(self.cval(y) for y in x[1:])
        if k == "md":
            return ("md", x[1])
        if k == "asm":
            return ("asm",)
        return ("u",)

    def ev(self, fr, x):
        if type(x) is int:
            try:
                return fr.regs[x]
            except KeyError:
                return ("u",)
        return self.cval(x)

    def add(self, st, a, b, sign=1):
        if is_ptr(a):
            l = lin(b)
            if l is not None and l[0] is None and type(a[2]) is int:
                return ("p", a[1], a[2] + sign * l[1])
            return ("p", a[1], ("?",))
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            if lb[0] is None:
                return mklin(la[0], la[1] + sign * lb[1])
            if la[0] is None and sign == 1:
                return mklin(lb[0], lb[1] + la[1])
            if la[0] == lb[0] and sign == -1:
                return la[1] - lb[1]
        return None

    def func_sym(self, st, op, a, b, w, site):
        if depth((a, b)) < 12:
            v = ("y#", ("op", op, a, b, w), 0)
            lo, hi = st.iv.get(v, (0, 1))
            return lo if lo == hi else v
        return self.new(st, "y#", site)

    def binop(self, st, op, a, b, w, site):
        if type(a) is int and type(b) is int:
            r = fold(op, a, b, w)
            if r is not None:
                if w == 1:
                    r &= 1
                return r
        if a == ("u",) or b == ("u",):
            return ("u",)
        if w == 1 or (type(a) is tuple and a[0] in ("c", "not")) or (type(b) is tuple and b[0] in ("c", "not")):
            if op == "xor":
                if b in (1, -1):
                    return self.neg(a)
                if a in (1, -1):
                    return self.neg(b)
                if b == 0:
                    return a
            if op == "and":
                for x, y in ((a, b), (b, a)):
                    t = self.truth(st, x)
                    if t is False:
                        return 0
                    if t is True and w == 1 or x in (1, 255, -1):
                        return y
            if op == "or":
                for x, y in ((a, b), (b, a)):
                    t = self.truth(st, x)
                    if t is True and w == 1:
                        return 1
                    if t is False:
                        return y
        if op == "and" and type(a) is tuple and a[0] == "f" and b == 1:
            return 0
        if op == "add":
            r = self.add(st, a, b)
            if r is not None:
                return r
        if op == "sub":
            if is_ptr(a) and is_ptr(b):
                if a[1] == b[1] and type(a[2]) is int and type(b[2]) is int:
                    return a[2] - b[2]
                return self.func_sym(st, "psub", a, b, w, site)
            r = self.add(st, a, b, -1)
            if r is not None:
                return r
        if op == "and" and b == 0 or op == "mul" and (a == 0 or b == 0):
            return 0
        if op == "mul" and b == 1 or op in ("shl", "lshr", "ashr", "or", "xor") and b == 0 or op in ("sdiv", "udiv") and b == 1:
            return a
        if op == "and" and type(b) is int and type(a) is tuple and a[0] == "y#":
            lo, hi = self.bounds(st, a)
            if lo >= 0 and hi <= b and (b & (b + 1)) == 0:
                return a
        r = self.func_sym(st, op, a, b, w, site)
        if r not in st.iv:
            la = lin(a)
            if op == "and" and type(b) is int and b > 0:
                st.iv[r] = (0, b)
            elif la is not None and la[0] is not None and self.bounds(st, la[0])[0] + la[1] >= 0:
                if op in ("lshr", "ashr", "udiv", "urem", "sdiv", "srem", "mul", "shl") and (type(b) is not int or b >= 0):
                    st.iv[r] = (0, b - 1) if op in ("urem", "srem") and type(b) is int and b > 0 else (0, INF)
        return r

    def neg(self, a):
        if type(a) is int:
            return 1 - (a & 1)
        if type(a) is tuple:
            if a[0] == "c" and a[1] in NEGATE:
                return ("c", NEGATE[a[1]], a[2], a[3])
            if a[0] == "not":
                return a[1]
            if a[0] == "u":
                return a
        return ("not", a)

    # ---------------------------------------------------------------- run
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis of %s exceeded %d steps" % (self.entry, self.budget))

    def push(self, st):
        if not st.dead:
            self.stack.append(st)

    def run(self, st):
        p = self.p
        while not st.dead:
            if not st.frames:
                return
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.b]
            ins = blk[fr.i]
            self.tick()
            op = ins[0]
            if op == "load":
                ptr = self.ev(fr, ins[4])
                kind = ins[6]
                if kind == "agg":
                    v = self.load_agg(st, ptr, ins[7])
                    if self.mon.wants_mem and is_ptr(ptr) and (self.mon.wants_local or self.is_shared(st, ptr[1])):
                        self.mon.event(self, st, "LOAD", ptr, v)
                        if st.dead:
                            return
                else:
                    v = self.load(st, ptr, ins[5], kind)
                    if self.mon.wants_mem and is_ptr(ptr) and (self.mon.wants_local or self.is_shared(st, ptr[1])):
                        self.mon.event(self, st, "LOAD", ptr, v)
                        if st.dead:
                            return
                if v == ("null-deref",) or ptr == ("null-deref",):
                    # dereferencing null is the end of this path
                    self.emit(st, "NULLDEREF")
                    return
                fr.regs[ins[1]] = v
                fr.i += 1
            elif op == "store":
                ptr = self.ev(fr, ins[4])
                v = self.ev(fr, ins[5])
                if ptr == 0 or ptr == ("null-deref",):
                    self.emit(st, "NULLDEREF")
                    return
                if len(ins) > 7:
                    self.store_agg(st, ptr, v, ins[7])
                    if self.mon.wants_mem and is_ptr(ptr) and self.is_shared(st, ptr[1]):
                        self.mon.event(self, st, "STORE", ptr, v)
                        if st.dead:
                            return
                else:
                    if is_ptr(ptr) and (self.mon.wants_local or self.is_shared(st, ptr[1])):
                        if self.mon.wants_mem:
                            self.mon.event(self, st, "STORE", ptr, v)
                            if st.dead:
                                return
                    self.store(st, ptr, v, ins[6])
                fr.i += 1
            elif op == "gep":
                b = self.ev(fr, ins[4])
                off = ins[5]
                unk = False
                for t in ins[6]:
                    if not t:
                        unk = True
                        break
                    iv = self.ev(fr, t[0])
                    l = lin(iv)
                    if l is not None and l[0] is None:
                        off += l[1] * t[1]
                    elif type(iv) is tuple:
                        unk = ("ix", iv, t[1])
                        if depth(iv) > 8:
                            unk = True
                if is_ptr(b):
                    if unk:
                        r = ("p", b[1], ("?", unk, off) if unk is not True else ("?",))
                    elif type(b[2]) is int:
                        r = ("p", b[1], b[2] + off)
                    else:
                        r = b
                elif type(b) is tuple and b[0] == "vf":
                    r = b
                elif b == 0 and not unk:
                    r = 0 if off == 0 else ("null-deref",)
                elif b == ("null-deref",):
                    r = b
                else:
                    r = ("u",) if b == ("u",) else b if off == 0 and not unk else self.new(st, "S#", ("gep", fr.f.name, fr.b, fr.i)) and ("u",)
                fr.regs[ins[1]] = r
                fr.i += 1
            elif op == "call" or op == "invoke":
                if not self.do_call(st, fr, ins):
                    return
            elif op == "br":
                if not self.jump(st, fr, ins[4]):
                    return
            elif op == "cbr":
                c = self.ev(fr, ins[4])
                r = self.truth(st, c)
                if r is None:
                    s2 = st.copy()
                    f2 = s2.frames[-1]
                    if self.assume(s2, c, False) and not s2.dead:
                        if self.jump(s2, s2.frames[-1], ins[6]):
                            self.push(s2)
                    if not self.assume(st, c, True) or st.dead:
                        return
                    if not self.jump(st, st.frames[-1], ins[5]):
                        return
                elif not self.jump(st, fr, ins[5] if r else ins[6]):
                    return
            elif op == "icmp":
                fr.regs[ins[1]] = self.icmp(st, ins[4], self.ev(fr, ins[5]), self.ev(fr, ins[6]))
                fr.i += 1
            elif op == "extract":
                v = self.ev(fr, ins[4])
                for k in ins[5:]:
                    v = self.extract(st, v, k)
                fr.regs[ins[1]] = v
                fr.i += 1
            elif op == "insert":
                fr.regs[ins[1]] = self.insert(st, self.ev(fr, ins[4]), self.ev(fr, ins[5]), ins[6:])
                fr.i += 1
            elif op == "select":
                c = self.ev(fr, ins[4])
                r = self.truth(st, c)
                if r is None:
                    s2 = st.copy()
                    if self.assume(s2, c, False) and not s2.dead:
                        f2 = s2.frames[-1]
                        f2.regs[ins[1]] = self.ev(f2, ins[6])
                        f2.i += 1
                        self.push(s2)
                    if not self.assume(st, c, True) or st.dead:
                        return
                    fr = st.frames[-1]
                    fr.regs[ins[1]] = self.ev(fr, ins[5])
                    fr.i += 1
                else:
                    fr.regs[ins[1]] = self.ev(fr, ins[5] if r else ins[6])
                    fr.i += 1
            elif op == "op":
                fr.regs[ins[1]] = self.do_op(st, fr, ins)
                fr.i += 1
            elif op == "alloca":
                o = ("A#", fr.cs, ins[1])
                if len(ins) > 5 and ins[5]:
                    self.const_locals.add(o)
                else:
                    self.const_locals.discard(o)
                st.mem[o] = {}
                st.esc.discard(o)
                st.typ.pop(o, None)
                fr.regs[ins[1]] = ("p", o, 0)
                fr.i += 1
            elif op == "ret":
                v = self.ev(fr, ins[4]) if len(ins) > 4 else None
                if not self.do_ret(st, v):
                    return
            elif op in ATOMICS and self.mon.injects and self.mon.inject(self, st):
                return
            elif op == "switch":
                v = self.ev(fr, ins[4])
                self.do_switch(st, fr, ins, v)
                return
            elif op == "aload":
                ptr = self.ev(fr, ins[4])
                v = self.atomic_load(st, ptr, ins[5], ins[6], ins[7])
                if st.dead:
                    return
                fr.regs[ins[1]] = v
                fr.i += 1
            elif op == "astore":
                ptr = self.ev(fr, ins[4])
                v = self.ev(fr, ins[5])
                self.atomic_store(st, ptr, v, ins[6], ins[7])
                fr.i += 1
            elif op == "rmw":
                ptr = self.ev(fr, ins[4])
                v = self.ev(fr, ins[6])
                r = self.atomic_rmw(st, ptr, ins[5], v, ins[7])
                if st.dead:
                    return
                fr.regs[ins[1]] = r
                fr.i += 1
            elif op == "cmpxchg":
                if not self.atomic_cas(st, fr, ins):
                    return
            elif op == "fence":
                self.emit(st, "FENCE", ins[4])
                fr.i += 1
            elif op == "unreachable":
                return
            elif op == "resume":
                if not self.unwind(st):
                    return
            elif op == "lpad":
                fr.regs[ins[1]] = ("agg", ("exc",), st.exc[1] if st.exc else ("u",))
                fr.i += 1
            elif op == "phi":
                raise Broken("phi not at block start")
            else:
                raise Broken("instruction " + op)

    def load_agg(self, st, ptr, leaves):
        def rec(l):
            if type(l) is int:
                if is_ptr(ptr) and type(ptr[2]) is int:
                    q = ("p", ptr[1], ptr[2] + l)
                    m = st.mem.get(q[1], {})
                    e = m.get(q[2])
                    if e is not None:
                        return e[0]
                    return self.load(st, q, 8, "i64")
                return ("u",)
            return ("agg",) + tuple(rec(x) for x in l)
        return rec(leaves)

    def store_agg(self, st, ptr, v, leaves):
        if not (is_ptr(ptr) and type(ptr[2]) is int):
            return

        def rec(l, v):
            if type(l) is int:
                self.store(st, ("p", ptr[1], ptr[2] + l), v, 8)
                return
            for i, x in enumerate(l):
                rec(x, self.extract(st, v, i))
        rec(leaves, v)

    # ---------------------------------------------------------------- atomics
    def areload(self, st, ptr, size, kind):
        """value of an atomic as of now"""
        if not is_ptr(ptr):
            return self.fresh(st, ("unk",), kind)
        o, off = ptr[1], ptr[2]
        if type(off) is not int:
            return self.fresh(st, ("idx", o), kind)
        old = None
        if self.is_shared(st, o) and not self.sequential and not self.const_loc(st, o, off):
            m = st.mem.get(o)
            if m is not None:
                if o[0] == "G#" and o[1].startswith("_ZGV") and off in m and \
                        self.cmp_truth(st, "ne", m[off][0], 0) is True:
                    # a static local is initialised once and for all
                    return self.load(st, ptr, size, kind)
                old = m.pop(off, None)
        v = self.load(st, ptr, size, kind)
        if self.arely is not None and self.is_shared(st, o):
            self.arely(self, st, ptr, old[0] if old else None, v)
            v = self.load(st, ptr, size, kind)
        return v

    def atomic_load(self, st, ptr, size, kind, order):
        v = self.areload(st, ptr, size, kind)
        if not st.dead:
            # the monitor may learn about the value
            fr = st.frames[-1]
            dst = fr.f.blocks[fr.b][fr.i][1]
            fr.regs[dst] = v
            self.emit(st, "ALOAD", ptr, v, order)
            v = fr.regs[dst]
        return v

    def atomic_store(self, st, ptr, v, size, order):
        self.store(st, ptr, v, size)
        self.emit(st, "ASTORE", ptr, v, order)

    def atomic_rmw(self, st, ptr, op, v, order):
        fr = st.frames[-1]
        old = self.areload(st, ptr, -1, "i64" if not is_ptr(v) else "p")
        if op == "xchg":
            new = v
        elif op in ("add", "sub", "and", "or", "xor"):
            new = self.binop(st, op, old, v, 64, ("rmw", fr.cs, fr.b, fr.i))
        else:
            new = self.fresh(st, ("rmw", fr.cs, fr.b, fr.i), "i64")
        if is_ptr(ptr):
            size = st.mem.get(ptr[1], {}).get(ptr[2], (0, 8))[1]
            self.store(st, ptr, new, size)
        dst = fr.f.blocks[fr.b][fr.i][1]
        fr.regs[dst] = old
        self.emit(st, "RMW", ptr, op, v, old, new, order)
        return fr.regs[dst]

    def atomic_cas(self, st, fr, ins):
        ptr = self.ev(fr, ins[4])
        exp = self.ev(fr, ins[5])
        new = self.ev(fr, ins[6])
        weak = bool(ins[7])
        orders = (ins[8], ins[9])
        kind = "p" if is_ptr(exp) or is_ptr(new) else "i64"
        old = self.areload(st, ptr, -1, kind)
        if st.dead:
            return False
        eq = self.icmp(st, "eq", old, exp)
        t = self.truth(st, eq)
        dst = ins[1]

        def done(s, ok):
            f = s.frames[-1]
            o = self.load(s, self.ev(f, ins[4]), -1, kind) if ok is None else None
            p = self.ev(f, ins[4])
            cur = s.mem.get(p[1], {}).get(p[2], (("u",), 8)) if is_ptr(p) else (("u",), 8)
            e, n = self.ev(f, ins[5]), self.ev(f, ins[6])
            if ok:
                self.store(s, p, n, cur[1])
            self.emit(s, "CAS", p, e, n, ok, weak, cur[0], orders)
            if s.dead:
                return False
            f.regs[dst] = ("agg", cur[0], 1 if ok else 0)
            f.i += 1
            return True
        if t is not False:
            s2 = st.copy()
            ok = True
            if t is None:
                ok = self.assume(s2, eq, True) and not s2.dead
            if ok and done(s2, True):
                self.push(s2)
        if t is True and not weak:
            return False
        if t is None and not weak:
            if not self.assume(st, eq, False) or st.dead:
                return False
        return done(st, False)

    def extract(self, st, v, k):
        if type(v) is tuple:
            if v[0] == "agg":
                return v[k + 1] if k + 1 < len(v) else ("u",)
            if v[0] == "z":
                return 0
            if v[0] == "aggsym":
                return ("y#", ("ex", v[1], k), 0)
        return ("u",)

    def insert(self, st, agg, v, idx):
        k = idx[0]
        if type(agg) is tuple and agg[0] == "agg":
            l = list(agg[1:])
        elif type(agg) is tuple and agg[0] == "aggsym":
            l = [("y#", ("ex", agg[1], i), 0) for i in range(max(4, k + 1))]
        elif agg == ("z",):
            l = [0] * (k + 1)
        else:
            l = [("u",)] * (k + 1)
        while len(l) <= k:
            l.append(0 if agg == ("z",) else ("u",))
        if len(idx) > 1:
            l[k] = self.insert(st, l[k], v, idx[1:])
        else:
            l[k] = v
        return ("agg",) + tuple(l)

    def icmp(self, st, pred, a, b):
        if a == ("u",) or b == ("u",):
            return ("u",)
        if type(a) is int and not type(b) is int:
            a, b = b, a
            pred = SWAP[pred]
        if type(b) is int and type(a) is tuple and a[0] in ("c", "not") and b == 0:
            if pred == "ne":
                return a
            if pred == "eq":
                return self.neg(a)
        c = ("c", pred, a, b)
        r = self.truth(st, c)
        if r is not None:
            return 1 if r else 0
        return c

    def do_op(self, st, fr, ins):
        opc = ins[4]
        ops = [self.ev(fr, x) for x in ins[5]]
        kind = ins[6]
        if opc in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            v = ops[0]
            src = ins[7]
            if opc == "trunc":
                w = int(kind[1:]) if kind.startswith("i") else 64
                if type(v) is int:
                    r = fold("add", v, 0, w)
                    return r & 1 if w == 1 else r
                if w == 1:
                    if type(v) is tuple and v[0] in ("c", "not", "u"):
                        return v
                    l = lin(v)
                    if l and l[1] == 0 and self.bounds(st, l[0])[0] >= 0 and self.bounds(st, l[0])[1] <= 1:
                        return v
                    return self.func_sym(st, "and", v, 1, 64, ("op", fr.cs, fr.b, fr.i))
                return v
            if opc == "zext" and type(v) is int:
                w = int(src[1:])
                return v & ((1 << w) - 1)
            if opc == "zext" and kind.startswith("i") and src.startswith("i") and type(v) is tuple and v[0] == "y#" and v not in st.iv and src != "i1":
                pass
            return v
        if opc in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            w = int(kind[1:]) if kind.startswith("i") else 64
            return self.binop(st, opc, ops[0], ops[1], w, ("op", fr.cs, fr.b, fr.i))
        return self.fresh(st, ("op", fr.cs, fr.b, fr.i), kind)

    def do_switch(self, st, fr, ins, v):
        cases = ins[6:]
        if type(v) is int:
            for c, b in cases:
                if c == v:
                    if self.jump(st, fr, b):
                        self.push(st)
                    return
            if self.jump(st, fr, ins[5]):
                self.push(st)
            return
        for c, b in cases:
            s2 = st.copy()
            if self.assume(s2, ("c", "eq", v, c), True) and not s2.dead:
                if self.jump(s2, s2.frames[-1], b):
                    self.push(s2)
        ok = True
        for c, b in cases:
            if not self.assume(st, ("c", "eq", v, c), False):
                ok = False
                break
        if ok and not st.dead and self.jump(st, st.frames[-1], ins[5]):
            self.push(st)

    # ---------------------------------------------------------------- control
    def jump(self, st, fr, b):
        blk = fr.f.blocks[b]
        prev = fr.b
        i = 0
        if blk and blk[0][0] == "phi":
            vals = []
            while blk[i][0] == "phi":
                ins = blk[i]
                v = ("u",)
                for pb, x in ins[4:]:
                    if pb == prev:
                        v = self.ev(fr, x)
                        break
                vals.append((ins[1], v))
                i += 1
            live = self.p.livein(fr.f, b)
            regs = {k: v for k, v in fr.regs.items() if k in live}
            for d, v in vals:
                regs[d] = v
            fr.regs = regs
        else:
            live = self.p.livein(fr.f, b)
            if len(live) < len(fr.regs):
                fr.regs = {k: v for k, v in fr.regs.items() if k in live}
        fr.b = b
        fr.i = i
        if fr.f.preds is None:
            self.p.prep(fr.f)
        if fr.f.preds[b] > 1:
            return self.merge(st, fr, b, prev)
        return True

    def merge(self, st, fr, b, prev):
        vk = (fr.cs, b)
        if self.unroll > 3 and b in fr.f.heads and (prev, b) not in fr.f.backs:
            # loops which shall be unrolled are counted each time they are entered
            st.visits.pop(vk, None)
            st.snap.pop(vk, None)
        n = st.visits.get(vk, 0) + 1
        st.visits[vk] = n
        if b in fr.f.heads:
            if n >= self.unroll:
                self.widen(st, vk, n)
                if st.dead:
                    return False
                self.collapse(st, 4 if n < max(4, self.unroll) else 1)
            if n > max(8, self.unroll):
                self.forget(st)
            if n >= 2:
                st.snap[vk] = self.snapshot(st)
        if n > 60:
            raise Budget("loop at %s does not converge" % self.site(st))
        key = self.canon(st)
        if self.verbose and n > 50:
            self.debug_key(vk, n, key)
        if key in self.seen:
            self.merged += 1
            return False
        self.seen[key] = True
        return True

    def collapse(self, st, least):
        """forgets the elements of growing local containers"""
        for o in list(st.mem):
            if o[0] in ("A#", "H#"):
                m = st.mem[o]
                for k, v in list(m.items()):
                    if type(k) is tuple and k[0] == "#" and v[0] == "L" and len(v[1]) > least:
                        y = self.new(st, "y#", ("grown", k[1]))
                        st.iv[y] = (1, INF)
                        m[k] = ("L", (("sg", y),))

    def forget(self, st):
        """drops what was learned about unknown shared objects, they get
        loaded again where needed"""
        for o in list(st.mem):
            if o[0] == "S#":
                m = st.mem[o]
                for k in list(m):
                    if type(k) is int and not (is_ptr(m[k][0]) and m[k][0][1][0] in ("G#", "VT#", "A#", "H#")):
                        if o[1] == ("this",) and not is_ptr(m[k][0]) and self.const_loc(st, o, k):
                            continue
                        del m[k]

    def debug_key(self, vk, n, key):
        old = self.__dict__.setdefault("_last", {}).get(vk)
        self._last[vk] = key
        if old is None:
            return
        print("-- visit", n, vk)

        def diff(a, b, path):
            if a == b:
                return
            if type(a) is frozenset:
                print("  ", path, "-", sorted(map(str, a - b))[:4], "+", sorted(map(str, b - a))[:4])
            elif type(a) is tuple and type(b) is tuple and len(a) == len(b) and len(a) > 0:
                for i, (x, y) in enumerate(zip(a, b)):
                    diff(x, y, path + (i,))
            else:
                print("  ", path, str(a)[:600], "=>", str(b)[:600])
        diff(old, key, ())

    def snapshot(self, st):
        top = st.frames[-1]
        ent = {}
        for fi, fr in enumerate(st.frames):
            for k, v in fr.regs.items():
                l = lin(v)
                if l is not None:
                    ent[("r", fi, k)] = v
        for o, m in st.mem.items():
            for k, e in m.items():
                if type(k) is int and lin(e[0]) is not None:
                    ent[("m", o, k)] = e[0]
        for k, v in st.ghost.items():
            if lin(v) is not None and type(v) is not bool:
                ent[("g", k)] = v
        return (ent, dict(st.iv), dict(st.rel))

    def flag_slot(self, st, k):
        """is the memory slot a bool, which needs no widening"""
        if k[0] != "m" or type(k[2]) is not int:
            return False
        c, rel = self.typeat(st, k[1], k[2])
        if c < 0:
            return False
        l = self.p.leaf(c, rel)
        if l is None:
            return False
        l = l[1]
        return l >= 0 and self.p.types[self.p.canon(l)].name == "bool"

    def widen(self, st, vk, n):
        """generalises what changed since the previous visit of a loop head"""
        snap = st.snap.get(vk)
        if snap is None:
            return
        old, oldiv, oldrel = snap
        cur = self.snapshot(st)[0]
        ints = []
        deltas = {}
        loose = []
        renamed = {}
        for k, v in cur.items():
            o = old.get(k)
            if o is None:
                continue
            lo, lv = lin(o), lin(v)
            if lo[0] is None and lv[0] is None:
                if o != v and not (o in (0, 1) and v in (0, 1) and self.flag_slot(st, k)):
                    ints.append((k, o, v))
            elif lo[0] is not None and lo[0] == lv[0]:
                deltas.setdefault(lo[0], set()).add(lv[1] - lo[1])
            elif o != v and n > 8:
                loose.append(k)
        for w, d in deltas.items():
            if d == {0}:
                continue
            if len(d) > 1 and n <= 14:
                # parts moved relative to the symbol, these get one of their own
                for dd in sorted(x for x in d if x != 0):
                    l = [(k, lin(v)[1]) for k, v in sorted(cur.items(), key=lambda x: str(x[0]))
                         if k in old and lin(v)[0] == w and lin(old[k])[0] == w and lin(v)[1] - lin(old[k])[1] == dd]
                    if not l:
                        continue
                    c0 = l[0][1]
                    w2 = self.new(st, "y#", ("wd", vk[0], vk[1], dd))
                    lo, hi = self.bounds(st, w)
                    st.iv[w2] = (lo + c0 if lo != -INF else lo, hi + c0 if hi != INF else hi)
                    if n > 6:
                        st.iv[w2] = (-INF, st.iv[w2][1]) if dd < 0 else (st.iv[w2][0], INF)
                    st.rel[(w2, w) if dd < 0 else (w, w2)] = c0 if dd < 0 else -c0
                    for k, x in l:
                        self.setslot(st, k, mklin(w2, x - c0))
                continue
            if n > 14:
                for k, v in cur.items():
                    o = old.get(k)
                    if o is not None and o != v and lin(o)[0] == w and lin(v)[0] == w:
                        loose.append(k)
                continue
            d = list(d)[0]
            w2 = self.new(st, "y#", w[1])
            olo, ohi = oldiv.get(w, (-INF, INF))
            saved = st.snap
            st.snap = {}
            # w == w2 - d
            self.subst_sym(st, w, w2, -d)
            st.snap = saved
            if st.dead:
                return
            self.rename_snaps(st, w, w2)
            renamed[w2] = w
            lo, hi = self.bounds(st, w2)
            lo, hi = min(lo, olo), max(hi, ohi)
            if n > 6 and lo != olo:
                lo = -INF
            if n > 6 and hi != ohi:
                hi = INF
            st.iv[w2] = (lo, hi)
            # relations hold as far as they did before
            for (a, b), c in list(st.rel.items()):
                if a == w2 or b == w2:
                    oc = oldrel.get((renamed.get(a, a), renamed.get(b, b)))
                    if oc is None or n > 8 and oc < c:
                        del st.rel[(a, b)]
                    else:
                        st.rel[(a, b)] = max(c, oc)
            st.ne.pop(w2, None)
            st.bf = {c: v for c, v in st.bf.items() if not self.occurs(w2, c)}
            if n > 10:
                st.rel = {c: v for c, v in st.rel.items() if w2 not in c}
        for k in loose:
            self.setslot(st, k, self.new(st, "y#", ("wx", vk[0], vk[1], str(k)[:60])))
        if ints:
            ints.sort(key=lambda x: str(x[0]))
            groups = {}
            for k, o, v in ints:
                groups.setdefault(v - o, []).append((k, v))
            for d, l in sorted(groups.items()):
                if n > 9:
                    for k, v in l:
                        self.setslot(st, k, self.new(st, "y#", ("wx", vk[0], vk[1], str(k)[:60])))
                    continue
                w = self.new(st, "y#", ("w", vk[0], vk[1], d))
                c0 = l[0][1]
                st.iv[w] = (c0, INF) if d > 0 else (-INF, c0)
                for k, v in l:
                    self.setslot(st, k, mklin(w, v - c0))
                if d > 0:
                    for s, (lo, hi) in list(st.iv.items()):
                        if s != w and lo != -INF and lo >= c0 and type(lo) is int:
                            st.rel[(w, s)] = c0 - lo

    def rename_snaps(self, st, w, w2):
        def rw(v):
            if v == w:
                return w2
            if type(v) is tuple and v and v[0] == "+" and v[1] == w:
                return ("+", w2, v[2])
            return v
        st.snap = {k: ({kk: rw(v) for kk, v in ent.items()}, {rw(s): b for s, b in oiv.items()},
                       {(rw(a), rw(b)): c for (a, b), c in orel.items()})
                   for k, (ent, oiv, orel) in st.snap.items()}

    def setslot(self, st, k, v):
        if k[0] == "r":
            st.frames[k[1]].regs[k[2]] = v
        elif k[0] == "m":
            m = st.mem[k[1]]
            m[k[2]] = (v, m[k[2]][1])
        else:
            st.ghost[k[1]] = v

    # ---- canonical form
    def canon(self, st):
        """garbage collects, renames symbols in order of their discovery and
        returns the key of the state"""
        ren = {}
        counts = {}
        objs = []
        seen_obj = set()
        memo = {}

        def rw(v):
            if type(v) is not tuple:
                return v
            r = memo.get(v)
            if r is not None:
                return r
            if v and v[0] in ("y#", "H#", "S#"):
                site = rw(v[1])
                if v[0] == "y#" and type(site) is tuple and site and site[0] in ("op", "ex", "const"):
                    r = (v[0], site, v[2])
                else:
                    k = (v[0], site)
                    c = counts.get(k, 0)
                    counts[k] = c + 1
                    r = (v[0], site, c)
                ren[v] = r
            else:
                r = tuple([rw(x) for x in v])
            memo[v] = r
            if v and v[0] in ("H#", "S#", "A#", "G#", "E#", "PI#") and v not in seen_obj:
                seen_obj.add(v)
                objs.append(v)
            return r
        fkey = []
        for fr in st.frames:
            regs = {k: rw(fr.regs[k]) for k in sorted(fr.regs)}
            fr.regs = regs
            if fr.locks is not None:
                fr.locks = rw(fr.locks)
            tag = None
            if type(fr.tag) is tuple and fr.tag[:1] == ("then",):
                # what remains to be done once it returned
                fr.tag = rw(fr.tag)
                tag = tuple(x for x in fr.tag if not callable(x))
            fkey.append((fr.cs, fr.b, fr.i, tuple(regs.items()), fr.locks, tag))
        st.locks = rw(st.locks)
        gk = []
        for k in sorted(st.ghost):
            st.ghost[k] = rw(st.ghost[k])
            gk.append((k, st.ghost[k]))
        st.conts = rw(st.conts)
        st.pins = rw(st.pins)
        if st.exc is not None:
            st.exc = rw(st.exc)
        # reachable memory
        mem = {}
        mkey = []
        i = 0
        gl = [o for o in st.mem if o[0] == "G#"]
        for o in sorted(gl):
            rw(o)
        keyed = {}          # elements of maps live as long as the map
        for o in st.mem:
            if o[0] == "E#" and len(o) > 3 and type(o[3]) is tuple and o[3] and o[3][0] == "key":
                keyed.setdefault(o[1], []).append(o)
        while i < len(objs):
            o = objs[i]
            i += 1
            for e in sorted(keyed.get(o, ()), key=str):
                rw(e)
            m = st.mem.get(o)
            if m is None:
                continue
            o2 = memo[o]
            nm = {}
            for k in sorted(m, key=str):
                nm[rw(k) if type(k) is tuple else k] = rw(m[k])
            mem[o2] = nm
            mkey.append((o2, tuple(nm.items())))
        st.mem = mem
        known = ren

        def alive(s):
            if s in known or s in memo:
                return True
            if type(s) is tuple and s and s[0] == "y#" and type(s[1]) is tuple and s[1] and s[1][0] in ("op", "ex"):
                return all(alive(x) for x in s[1][2:4] if type(x) is tuple and depth(x) > 0 and self.hassym(x))
            return False
        iv = {}
        for s, b in st.iv.items():
            if alive(s):
                iv[rw(s)] = b
        st.iv = iv
        ne = {}
        for s, b in st.ne.items():
            if alive(s):
                ne[rw(s)] = b
        st.ne = ne
        rel = {}
        for (a, b), c in st.rel.items():
            if alive(a) and alive(b):
                rel[(rw(a), rw(b))] = c
        st.rel = rel
        st.nn = {rw(o) for o in st.nn if alive(o)}
        bf = {}
        for c, v in st.bf.items():
            if all(alive(x) for x in self.atoms(c)):
                bf[rw(c)] = v
        st.bf = bf
        st.esc = {rw(o) for o in st.esc if o in memo}
        st.typ = {rw(o): t for o, t in st.typ.items() if o in memo}
        st.cnt = dict(counts)
        sn = {}
        cur = {fr.cs for fr in st.frames}
        for k, (ent, oiv, orel) in st.snap.items():
            if k[0] in cur:
                sn[k] = ({(rwx(kk, memo)): rw(v) for kk, v in ent.items() if self.known(v, memo)},
                         {rw(s): b for s, b in oiv.items() if s in memo},
                         {(rw(a), rw(b)): c for (a, b), c in orel.items() if a in memo and b in memo})
        st.snap = sn
        st.visits = {k: v for k, v in st.visits.items() if k[0] in cur}
        return (tuple(fkey), st.locks, tuple(gk), st.conts, tuple(mkey), frozenset(iv.items()),
                frozenset(ne.items()), frozenset(rel.items()), frozenset(st.nn),
                frozenset(bf.items()), frozenset(st.esc), st.exc)

    def known(self, v, memo):
        l = lin(v)
        return l is not None and (l[0] is None or l[0] in memo)

    def hassym(self, x):
        if type(x) is not tuple:
            return False
        if x and x[0] in ("y#", "S#", "H#"):
            return True
        return any(self.hassym(y) for y in x)

    def atoms(self, x, acc=None):
        if acc is None:
            acc = []
        if type(x) is tuple:
            if x and x[0] in ("y#", "S#", "H#"):
                acc.append(x)
            else:
                for y in x:
                    self.atoms(y, acc)
        return acc

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fr, ins):
        """returns False if the state is finished or was pushed elsewhere"""
        callee = self.ev(fr, ins[4])
        args = [self.ev(fr, a) for a in ins[5]]
        c = Call()
        c.dst = ins[1]
        c.site = (ins[2], ins[3])
        c.kind = ins[6]
        c.nounwind = ins[7]
        c.sret = ins[8]
        if ins[0] == "invoke":
            c.normal = ins[9]
            c.unwind = ins[10]
        else:
            c.normal = None
            c.unwind = None
        c.name = None
        c.f = None
        if type(callee) is tuple and callee[0] == "f":
            return self.call_fn(st, c, callee[1], args)
        if type(callee) is tuple and callee[0] == "vf":
            return self.call_virtual(st, c, callee[1], callee[2], args)
        if callee == ("asm",):
            return self.ret(st, c, self.fresh(st, ("asm", fr.cs, fr.b, fr.i), c.kind))
        return self.models.icall(self, st, c, callee, args)

    def call_fn(self, st, c, name, args, nomodel=False):
        f = self.p.funcs.get(name)
        if f is None:
            if name.startswith("llvm."):
                return self.models.intrinsic(self, st, c, name, args)
            d = self.p.decls.get(name)
            c.f = d
            key = d.key if d else name
        else:
            key = f.key
            c.f = f
        c.name = name
        if args and ("null-deref",) in args:
            self.emit(st, "NULLDEREF")
            return False
        if not nomodel:
            if key in self.opaque or (self.opaque and any(
                    k.endswith("*") and key.startswith(k[:-1]) for k in self.opaque)):
                return self.opaque_call(st, c, key, args)
            h = self.models.find(key, f, name)
            if h is not None and args and args[0] == ("u",) and key not in self.models.extra:
                return self.ret(st, c, self.result(st, c, args))
            if h is not None:
                r = h(self, st, c, args)
                if r is not NotImplemented:
                    return r
        if f is not None:
            lim = self.recursion if ("/repo/" in f.file and not f.ctor and "~" not in f.base) else 6
            if sum(1 for fr in st.frames if fr.f is f) >= lim:
                # assumed to behave like the activation analysed already
                self.emit(st, "RECURSE", key, *args)
                if st.dead:
                    return False
                self.havoc(st, "recursion")
                return self.ret(st, c, self.result(st, c, args))
            self.push_frame(st, f, args, c)
            return not st.dead
        return self.models.external(self, st, c, key, args)

    def opaque_call(self, st, c, key, args):
        h = self.opaque.get(key) if isinstance(self.opaque, dict) else None
        if h is None and isinstance(self.opaque, dict):
            for k, v in self.opaque.items():
                if k.endswith("*") and key.startswith(k[:-1]):
                    h = v
                    break
        if callable(h):
            return h(self, st, c, key, args)
        self.emit(st, "CALL", key, *args)
        if st.dead:
            return False
        for a in args:
            self.escape(st, a)
        return self.ret(st, c, self.result(st, c, args))

    def result(self, st, c, args, tag="ret"):
        fr = st.frames[-1]
        site = (tag, fr.cs, fr.b, fr.i)
        if c.sret and args and is_ptr(args[0]):
            self.make_symbolic(st, args[0], self.ret_type(c))
            return None
        return self.fresh(st, site, c.kind, self.ret_tid(c))

    def ret_tid(self, c):
        if c.f is not None and c.f.di:
            return c.f.di[0]
        return -1

    def ret_type(self, c):
        t = self.ret_tid(c)
        return self.p.canon(t) if t >= 0 else -1

    def make_symbolic(self, st, ptr, cls):
        """content of a local object becomes unknown but typed"""
        o = ptr[1]
        m = st.mem.setdefault(o, {})
        size = self.p.sizeof(cls) if cls >= 0 else 16
        for k in [k for k in m if type(k) is int and ptr[2] <= k < ptr[2] + max(size, 1)]:
            del m[k]
        for k in [k for k in m if type(k) is tuple and k[0] in ("#", "#s") and ptr[2] <= k[1] < ptr[2] + max(size, 1)]:
            del m[k]
        if cls >= 0 and o[0] in ("A#", "H#"):
            self.settype(st, o, ptr[2], cls)

    def call_virtual(self, st, c, obj, off, args, thisoff=0):
        # static class from the type metadata or the pointer's type
        cls = st.bf.get(("cls", obj))
        t = self.p.by_ident.get(cls) if cls else None
        tid = t.id if t else None
        if tid is None:
            e = self.typeat(st, obj, args[0][2] if args and is_ptr(args[0]) and type(args[0][2]) is int else 0)
            tid = self.p.canon(e[0]) if e[0] >= 0 else -1
        v = self.p.virtual_at(tid, off // 8) if tid >= 0 else None
        cname = self.p.types[v[0]].name if v else "?"
        meth = v[1] if v else "slot%d" % (off // 8)
        return self.models.vcall(self, st, c, cname, meth, obj, args, v)

    def ret(self, st, c, v):
        """completes a modelled call"""
        if st.dead:
            return False
        fr = st.frames[-1]
        if c.dst >= 0:
            fr.regs[c.dst] = v
        if c.normal is not None:
            return self.jump(st, fr, c.normal)
        fr.i += 1
        return True

    def fork(self, st, c, alts):
        """alts: list of functions applied to a copy of the state, each
        returning the call's value (or 'DEAD')"""
        for fn in alts[1:]:
            s2 = st.copy()
            v = fn(s2)
            if v != "DEAD" and not s2.dead and self.ret(s2, c, v):
                self.push(s2)
        v = alts[0](st)
        if v == "DEAD" or st.dead:
            return False
        return self.ret(st, c, v)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        if fr.locks is not None:
            st.locks = fr.locks
        tag = fr.tag
        # the locals are gone
        cs = fr.cs
        for o in [o for o in st.mem if o[0] == "A#" and o[1] == cs]:
            if o not in st.esc:
                del st.mem[o]
                st.typ.pop(o, None)
        if not st.frames:
            return self.finish(st, "RETURN", v)
        up = st.frames[-1]
        if tag is not None and type(tag) is tuple and tag[0] == "then":
            r = self.models.resume(self, st, fr, tag, v)
            if r is not None:
                return r
        if fr.dst >= 0:
            up.regs[fr.dst] = v
        if fr.normal is not None:
            return self.jump(st, up, fr.normal)
        if tag != "chain":
            up.i += 1
        return True

    def finish(self, st, how, v=None):
        self.emit(st, how, v)
        if st.dead:
            return False
        if st.conts:
            nxt = st.conts[0]
            st.conts = st.conts[1:]
            st.locks = ()
            return self.models.run_cont(self, st, nxt)
        self.paths += 1
        self.mon.end(self, st, how)
        return False

    def throw(self, st, exc):
        """start unwinding from the current call; exc = (description, selector)"""
        st.exc = exc
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.b][fr.i]
        if ins[0] == "invoke":
            return self.jump(st, fr, ins[10])
        return self.unwind(st)

    def unwind(self, st):
        while st.frames:
            fr = st.frames.pop()
            if fr.locks is not None:
                st.locks = fr.locks
            for o in [o for o in st.mem if o[0] == "A#" and o[1] == fr.cs]:
                if o not in st.esc:
                    del st.mem[o]
            if fr.unwind is not None:
                return self.jump(st, st.frames[-1], fr.unwind)
        return self.finish_unwind(st)

    def finish_unwind(self, st):
        self.emit(st, "UNWIND")
        if st.dead:
            return False
        self.paths += 1
        self.mon.end(self, st, "UNWIND")
        return False


def rwd(rw, v):
    ent, iv, rel = v
    return ({k: rw(x) for k, x in ent.items()}, {rw(s): b for s, b in iv.items() if type(rw(s)) is tuple},
            {(rw(a), rw(b)): c for (a, b), c in rel.items() if type(rw(a)) is tuple and type(rw(b)) is tuple})


def rwx(k, memo):
    if k[0] == "m":
        return ("m", memo.get(k[1], k[1]), k[2])
    return k


import os
