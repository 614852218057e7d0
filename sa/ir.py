"""Program: the linked module with the helpers to resolve types and names."""
import json
import re


def strip_t(s):
    """removes template arguments, keeps operators"""
    out = []
    dep = 0
    i = 0
    n = len(s)
    while i < n:
        if s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            j = i + 8
            m = re.match(r"\s*(<=>|<<=|>>=|->\*|<<|>>|<=|>=|->|<|>)", s[j:])
            if m:
                if dep == 0:
                    out.append("operator" + m.group(1))
                i = j + m.end()
                continue
        ch = s[i]
        if ch == "<":
            dep += 1
        elif ch == ">":
            dep -= 1
        elif dep == 0:
            out.append(ch)
        i += 1
    return "".join(out)


class Func:
    __slots__ = ("name", "dem", "base", "ctx", "ctor", "args", "argattrs", "file",
                 "line", "cls", "di", "blocks", "sname", "key", "params",
                 "preds", "used", "heads", "backs", "_livein", "_liveat", "succs", "internal", "nuses", "acc", "artificial")

    def __repr__(self):
        return "<" + self.dem[:80] + ">"


class Type:
    __slots__ = ("id", "name", "tag", "size", "base", "ident", "fwd", "members",
                 "bases", "virtuals", "enumerators", "file", "line")


TAG_CONST = 0x26
TAG_PTR = 0x0f
TAG_REF = 0x10
TAG_RREF = 0x42
TAG_TYPEDEF = 0x16
TAG_VOLATILE = 0x35
TAG_CLASS = 0x02
TAG_STRUCT = 0x13
TAG_UNION = 0x17
TAG_BASE = 0x24
TAG_ENUM = 0x04
TAG_ARRAY = 0x01


def operands(ins):
    """local value ids used by an instruction"""
    op = ins[0]
    out = []

    def v(x):
        if type(x) is int:
            out.append(x)
    if op in ("load", "aload"):
        v(ins[4])
    elif op in ("store", "astore"):
        v(ins[4]); v(ins[5])
    elif op == "gep":
        v(ins[4])
        for t in ins[6]:
            if t:
                v(t[0])
    elif op in ("cbr", "switch", "resume"):
        v(ins[4])
    elif op == "ret":
        if len(ins) > 4:
            v(ins[4])
    elif op in ("call", "invoke"):
        v(ins[4])
        for a in ins[5]:
            v(a)
    elif op == "cmpxchg":
        v(ins[4]); v(ins[5]); v(ins[6])
    elif op == "rmw":
        v(ins[4]); v(ins[6])
    elif op == "icmp":
        v(ins[5]); v(ins[6])
    elif op == "extract":
        v(ins[4])
    elif op == "insert":
        v(ins[4]); v(ins[5])
    elif op == "select":
        v(ins[4]); v(ins[5]); v(ins[6])
    elif op == "op":
        for a in ins[5]:
            v(a)
    return out


def successors(ins):
    op = ins[0]
    if op == "br":
        return [ins[4]]
    if op == "cbr":
        return [ins[5], ins[6]]
    if op == "switch":
        return [ins[5]] + [c[1] for c in ins[6:]]
    if op == "invoke":
        return [ins[9], ins[10]]
    return []


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.types = []
        for i, t in enumerate(d["types"]):
            y = Type()
            y.id = i
            y.name = t.get("name", "")
            y.tag = t["tag"]
            y.size = t.get("size", 0)
            y.base = t.get("base", -1)
            y.ident = t.get("id", "")
            y.fwd = t.get("fwd", False)
            y.members = t.get("members", [])
            y.bases = t.get("bases", [])
            y.virtuals = t.get("virtuals", [])
            y.enumerators = t.get("enumerators", [])
            y.file = t.get("file", "")
            y.line = t.get("line", 0)
            self.types.append(y)
        self.by_ident = {}
        self.by_name = {}
        for t in self.types:
            if t.tag in (TAG_CLASS, TAG_STRUCT, TAG_UNION, TAG_ENUM):
                if t.ident and (t.ident not in self.by_ident or self.by_ident[t.ident].fwd):
                    self.by_ident[t.ident] = t
                if t.name not in self.by_name or self.by_name[t.name].fwd:
                    self.by_name[t.name] = t
        self.funcs = {}
        for n, f in d["funcs"].items():
            x = Func()
            x.name = n
            x.dem = f["dem"]
            x.base = f["base"]
            x.ctx = f["ctx"]
            x.ctor = f.get("ctor", False)
            x.params = f.get("params", "")
            x.args = f["args"]
            x.argattrs = f["argattrs"]
            x.file = f.get("file", "")
            x.line = f.get("line", 0)
            x.cls = f.get("cls", -1)
            x.di = f.get("di", [])
            x.sname = f.get("sname", "")
            x.artificial = f.get("artificial", False)
            x.acc = f.get("acc", 0)
            x.internal = f.get("internal", False)
            x.blocks = f["blocks"]
            x.key = self.mkkey(f)
            x._livein = None
            x._liveat = {}
            x.preds = None
            self.funcs[n] = x
        self.decls = {}
        for n, f in d["decls"].items():
            x = Func()
            x.name = n
            x.dem = f["dem"]
            x.base = f["base"]
            x.ctx = f["ctx"]
            x.ctor = f.get("ctor", False)
            x.params = f.get("params", "")
            x.key = self.mkkey(f)
            x.blocks = None
            x.acc = 0
            x.artificial = False
            x.internal = False
            x.cls = -1
            x.di = []
            self.decls[n] = x
        self.globals = d["globals"]
        for g, x in self.globals.items():
            init = {}
            for e in x.get("init", []):
                if e[1] == "v":
                    init[e[0]] = e[2]
                elif e[1] == "str":
                    init[e[0]] = ["str", e[2]]
                elif e[1] == "zero":
                    init[e[0]] = ["zero", e[2]]
            x["initmap"] = init
        self._leaf = {}

    @staticmethod
    def mkkey(f):
        c = strip_t(f["ctx"])
        b = strip_t(f["base"])
        return c + "::" + b if c else b

    # ---- types
    def canon(self, tid):
        """follows qualifiers and typedefs, prefers the definition"""
        n = 0
        while tid >= 0 and n < 40:
            t = self.types[tid]
            if t.tag in (TAG_CONST, TAG_TYPEDEF, TAG_VOLATILE):
                tid = t.base
                n += 1
                continue
            if t.fwd and t.ident in self.by_ident:
                return self.by_ident[t.ident].id
            if t.tag in (TAG_CLASS, TAG_STRUCT) and (not t.ident or t.fwd) and t.name.startswith("xdispatch::") \
                    and "(" not in t.name:
                # classes with a key function are described once per unit
                return self.by_name[t.name].id
            return tid
        return -1

    def is_const(self, tid):
        while tid >= 0:
            t = self.types[tid]
            if t.tag == TAG_CONST:
                return True
            if t.tag in (TAG_TYPEDEF, TAG_VOLATILE):
                tid = t.base
                continue
            return False
        return False

    def pointee(self, tid):
        """class behind a pointer or reference, -1 if none"""
        tid = self.canon(tid)
        if tid < 0:
            return -1
        t = self.types[tid]
        if t.tag in (TAG_PTR, TAG_REF, TAG_RREF):
            return self.canon(t.base)
        return -1

    def is_class(self, tid):
        return tid >= 0 and self.types[tid].tag in (TAG_CLASS, TAG_STRUCT, TAG_UNION)

    def tname(self, tid):
        return self.types[tid].name if tid >= 0 else "?"

    def leaf(self, tid, off):
        """(path, type id, const, offset in that leaf) of the innermost member"""
        k = (tid, off)
        if k in self._leaf:
            return self._leaf[k]
        r = self._leaf_of(tid, off)
        self._leaf[k] = r
        return r

    def _leaf_of(self, tid, off):
        path = []
        const = False
        cur = tid
        while True:
            if cur >= 0 and self.is_const(cur):
                const = True
            c = self.canon(cur)
            if c < 0:
                return (path, -1, const, off)
            t = self.types[c]
            if not self.is_class(c):
                if t.tag == TAG_ARRAY and t.base >= 0:
                    e = self.canon(t.base)
                    sz = self.types[e].size if e >= 0 else 0
                    if e >= 0 and self.types[e].tag == TAG_PTR:
                        sz = 8
                    if sz:
                        path.append(("[%d]" % (off // sz), c))
                        off %= sz
                        cur = t.base
                        continue
                return (path, c, const, off)
            best = None
            for name, o, mt in t.members:
                if o <= off and (best is None or o >= best[1]):
                    sz = self.sizeof(mt)
                    if off < o + max(sz, 1):
                        best = (name, o, mt)
            for o, bt in t.bases:
                sz = self.sizeof(bt)
                if o <= off < o + max(sz, 1) and (best is None or o > best[1]):
                    # an empty base shares its offset with members
                    cb = self.canon(bt)
                    if self.types[cb].members or self.types[cb].bases or self.types[cb].virtuals:
                        if best is None or sz > 1:
                            best = ("", o, bt)
            if best is None:
                return (path, c, const, off)
            name, o, mt = best
            path.append((name, c))
            off -= o
            cur = mt

    def sizeof(self, tid):
        c = self.canon(tid)
        if c < 0:
            return 8
        t = self.types[c]
        if t.tag in (TAG_PTR, TAG_REF, TAG_RREF):
            return 8
        return t.size

    def member_path(self, tid, off):
        p, t, c, o = self.leaf(tid, off)
        return ".".join(n for n, _ in p if n), t, c, o

    def base_offset(self, derived, base, depth=0):
        """offset of the base class subobject or None"""
        d = self.canon(derived)
        b = self.canon(base)
        if d == b:
            return 0
        if d < 0 or depth > 12:
            return None
        for o, bt in self.types[d].bases:
            r = self.base_offset(bt, b, depth + 1)
            if r is not None:
                return o + r
        return None

    def bases_of(self, tid, acc=None, off=0):
        """[(class id, offset)] including the class itself"""
        if acc is None:
            acc = []
        c = self.canon(tid)
        if c < 0:
            return acc
        acc.append((c, off))
        for o, bt in self.types[c].bases:
            self.bases_of(bt, acc, off + o)
        return acc

    def derives(self, tid, name):
        return any(self.types[c].name == name for c, _ in self.bases_of(tid))

    def virtual_at(self, tid, slot):
        """(class id, method, linkage name, di types) of a vtable slot"""
        for c, _ in self.bases_of(tid):
            for v in self.types[c].virtuals:
                if v[0] == slot:
                    if v[1].startswith("~"):
                        continue
                    return (c, v[1], v[2], v[3] if len(v) > 3 else [])
        # destructors occupy two slots, only one index is recorded
        for c, _ in self.bases_of(tid):
            for v in self.types[c].virtuals:
                if v[1].startswith("~") and slot in (v[0], v[0] + 1):
                    return (c, v[1], v[2], v[3] if len(v) > 3 else [])
        return None

    def _vtables(self):
        m = getattr(self, "_vt", None)
        if m is None:
            m = self._vt = {}
            for g, v in self.globals.items():
                d = v.get("dem") or ""
                if g.startswith("_ZTV") and d.startswith("vtable for "):
                    m.setdefault(d[11:], g)
        return m

    def vtable(self, tid, off=0):
        """(global, address point) of the vtable of the subobject at off"""
        t = self.types[self.canon(tid)]
        g = "_ZTV" + t.ident[4:] if t.ident.startswith("_ZTS") else None
        if g not in self.globals:
            # (dynamic classes with a key function carry no identifier)
            g = self._vtables().get(t.name)
            if g is None:
                return None
        init = self.globals[g]["initmap"]
        # each sub vtable starts with offset-to-top, rtti
        for o in sorted(init):
            if o % 8:
                continue
            rt = init.get(o + 8)
            if rt is None or rt[0] != "g" or not str(rt[1]).startswith("_ZTI"):
                continue
            top = init[o]
            tv = 0
            if top[0] == "i":
                tv = top[1]
            elif top[0] == "cast" and top[1][0] == "i":
                tv = top[1][1]
            if -tv == off:
                return (g, o + 16)
        return None

    # ---- functions
    def site(self, ins):
        f = self.files[ins[2]] if 0 <= ins[2] < len(self.files) else ""
        return "%s:%d" % (f, ins[3])

    def prep(self, f):
        """liveness and predecessors of a function"""
        nb = len(f.blocks)
        succ = [successors(b[-1]) if b else [] for b in f.blocks]
        preds = [0] * nb
        for s in succ:
            for x in set(s):
                preds[x] += 1
        use = []
        deff = []
        phiuse = [dict() for _ in range(nb)]
        for bi, b in enumerate(f.blocks):
            u = set()
            dd = set()
            for ins in b:
                if ins[0] == "phi":
                    for pb, v in ins[4:]:
                        if type(v) is int:
                            phiuse[pb].setdefault(bi, set()).add(v)
                else:
                    for v in operands(ins):
                        if v not in dd:
                            u.add(v)
                if ins[1] >= 0:
                    dd.add(ins[1])
            use.append(u)
            deff.append(dd)
        livein = [set() for _ in range(nb)]
        changed = True
        while changed:
            changed = False
            for bi in range(nb - 1, -1, -1):
                out = set()
                for s in succ[bi]:
                    out |= livein[s]
                    out |= phiuse[bi].get(s, set())
                n = use[bi] | (out - deff[bi])
                if n != livein[bi]:
                    livein[bi] = n
                    changed = True
        f.used = set().union(*use, *[v for m in phiuse for v in m.values()]) if nb else set()
        f.preds = preds
        f.succs = succ
        # targets of back edges
        heads = set()
        backs = set()
        color = [0] * nb
        stack = [(0, 0)]
        if nb:
            color[0] = 1
        while stack:
            b, k = stack.pop()
            if k < len(succ[b]):
                stack.append((b, k + 1))
                x = succ[b][k]
                if color[x] == 1:
                    heads.add(x)
                    backs.add((b, x))
                elif color[x] == 0:
                    color[x] = 1
                    stack.append((x, 0))
            else:
                color[b] = 2
        f.heads = heads
        f.backs = backs
        f._livein = livein
        f._liveat = {}
        self._phiuse = None
        f.nuses = phiuse

    def livein(self, f, b):
        if f._livein is None:
            self.prep(f)
        return f._livein[b]

    def live_after(self, f, b, i):
        """registers needed after instruction i of block b"""
        if f._livein is None:
            self.prep(f)
        k = (b, i)
        r = f._liveat.get(k)
        if r is None:
            out = set()
            for s in f.succs[b]:
                out |= f._livein[s]
                out |= f.nuses[b].get(s, set())
            blk = f.blocks[b]
            for j in range(len(blk) - 1, i, -1):
                ins = blk[j]
                if ins[1] >= 0:
                    out.discard(ins[1])
                if ins[0] != "phi":
                    out |= set(operands(ins))
            r = f._liveat[k] = out
        return r
