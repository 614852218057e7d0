"""Runs the checks of a property: selects the entry functions, explores them
with the property automata and writes evidence and reports."""
import json
import multiprocessing
import os
import sys
import time
import traceback

import build
import ir
from engine import *
from models import Models

VERIF = build.VERIF
_CTX = None


def _work(i):
    ctx = _CTX
    job = ctx.jobs[i]
    t = time.time()
    res = {"label": job["label"], "fname": job["f"].name, "error": None, "violations": [], "functions": [],
           "steps": 0, "paths": 0, "merged": 0, "kinds": {}, "facts": {}, "notes": []}
    try:
        mon = job["monitor"]()
        mon.facts = {}
        mon.f = job["f"]
        models = job["models"]() if job["models"] else Models()
        kw = dict(job["kw"])
        arely = kw.pop("arely", None)
        keep = kw.pop("keep_elements", None)
        seq = kw.pop("sequential", False)
        recursion = kw.pop("recursion", 1)
        unroll = kw.pop("unroll", 3)
        extra = kw.pop("const_extra", None)
        imm = ctx.immutable
        if extra:
            def imm(cls, member):
                return (cls, member) in extra or ctx.immutable(cls, member)
        eng = Engine(ctx.p, mon, models, budget=ctx.budget, immutable=imm, **kw)
        eng.arely = arely
        eng.sequential = seq
        eng.keep_elements = keep
        eng.recursion = recursion
        eng.unroll = unroll
        try:
            eng.run_entry(job["f"], setup=job["setup"], label=job["label"], args=job["args"],
                          this=job.get("this"))
            if hasattr(mon, "done"):
                mon.done(eng)
        finally:
            res["violations"] = [(v.msg, v.site, v.trace, v.entry, v.stack) for v in eng.violations]
            res["functions"] = sorted(eng.functions)
            res["steps"] = eng.steps
            res["paths"] = eng.paths
            res["merged"] = eng.merged
            res["states"] = len(eng.seen)
            res["kinds"] = eng.kinds
            res["facts"] = mon.facts
            res["data"] = getattr(mon, "data", None)
            res["unknown"] = eng.unknown_calls
    except (Budget, Broken) as x:
        res["error"] = "%s: %s" % (type(x).__name__, x)
    except Exception:
        res["error"] = "internal: " + traceback.format_exc()[-1500:]
    res["wall"] = time.time() - t
    return res


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.p = ir.Program(build.build())
        self.jobs = []
        self.results = []
        self.violations = []     # (msg, site, trace, entry, stack)
        self.rules = []
        self.counts = {}
        self.assumptions = []
        self.samples = []
        self.budget = 1500000 if tier == "thorough" else 500000
        self._imm = None
        self._refs = None
        self._over = {}

    # ------------------------------------------------------------ program
    def cls(self, name):
        t = self.p.by_name.get(name)
        if t is None:
            raise Broken("class %s vanished" % name)
        return t

    def methods(self, name):
        """functions of a class by name"""
        t = self.cls(name)
        return [f for f in self.p.funcs.values() if f.cls >= 0 and self.p.canon(f.cls) == self.p.canon(t.id)
                and f.file and ("/repo/" in f.file or "/frontend/driver" in f.file)]

    def refs(self):
        """function -> set of functions (or globals) mentioning it"""
        if self._refs is not None:
            return self._refs
        r = {}

        def walk(x, who):
            if type(x) is list:
                if len(x) >= 2 and x[0] == "f" and type(x[1]) is str:
                    r.setdefault(x[1], set()).add(who)
                    return
                for y in x:
                    if type(y) is list:
                        walk(y, who)
        for n, f in self.p.funcs.items():
            for b in f.blocks:
                for ins in b:
                    for y in ins[4:]:
                        if type(y) is list:
                            walk(y, n)
        for g, x in self.p.globals.items():
            for e in x["initmap"].values():
                walk(e, "@" + g)
        self._refs = r
        return r

    def owner(self, f):
        """name of the outermost class a function (or the closure it defines)
        belongs to"""
        return self.p.types[self.p.canon(f.cls)].name if f.cls >= 0 else ""

    def inside(self, fname, cls):
        """is a function part of the class (closures and nested included)"""
        f = self.p.funcs.get(fname)
        if f is None:
            return False
        key = f.dem
        short = cls
        return f.key.startswith(short + "::") or (short + "::") in key.split("(")[0]

    def api(self, cls):
        """member functions used from outside of the class or by address"""
        refs = self.refs()
        out = []
        for f in self.methods(cls):
            who = refs.get(f.name, set())
            ext = [w for w in who if not (not w.startswith("@") and self.inside(w, cls))]
            addr = self.address_taken(f.name)
            if ext or addr or not who:
                out.append(f)
        return out

    def address_taken(self, name):
        if not hasattr(self, "_addr"):
            self._addr = set()
            for n, f in self.p.funcs.items():
                for b in f.blocks:
                    for ins in b:
                        if ins[0] in ("call", "invoke"):
                            ops = ins[5]
                        else:
                            ops = [y for y in ins[4:] if type(y) is list]
                        self._scan(ops)
        return name in self._addr

    def _scan(self, x):
        if type(x) is list:
            if len(x) == 2 and x[0] == "f" and type(x[1]) is str:
                self._addr.add(x[1])
                return
            for y in x:
                self._scan(y)

    def derived(self, base):
        """concrete classes (with a vtable) derived from a class"""
        out = []
        seen = set()
        for t in self.p.types:
            if t.tag in (TAG_CLASS, TAG_STRUCT) and not t.fwd and self.p.canon(t.id) == t.id and t.name != base:
                if t.id in seen or not self.p.derives(t.id, base):
                    continue
                seen.add(t.id)
                if self.p.vtable(t.id, 0):
                    out.append(t)
        names = {}
        for t in out:
            names.setdefault(t.ident if t.ident.startswith("_ZTS") else t.name, t)
        return sorted(names.values(), key=lambda t: t.name)

    def slot(self, base, meth):
        t = self.cls(base)
        for c, off in self.p.bases_of(t.id):
            for v in self.p.types[c].virtuals:
                if v[1] == meth:
                    return v[0]
        raise Broken("%s::%s vanished" % (base, meth))

    def overrides(self, base, meth):
        """[(class, function)] implementations reachable through the vtables"""
        s = self.slot(base, meth)
        out = []
        for t in self.derived(base):
            boff = self.p.base_offset(t.id, self.cls(base).id)
            vt = self.p.vtable(t.id, boff)
            if not vt:
                continue
            e = self.p.globals[vt[0]]["initmap"].get(vt[1] + 8 * s)
            if e is None or e[0] != "f":
                continue
            f = self.p.funcs.get(e[1])
            if f is not None:
                out.append((t, f))
        return out

    def fn(self, key, n=1, pred=None):
        fs = [f for f in self.p.funcs.values() if f.key == key and (pred is None or pred(f))]
        if len(fs) < n:
            raise Broken("function %s vanished" % key)
        return fs

    def floor(self, what, n, least):
        self.counts[what] = n
        if n < least:
            raise Broken("only %d %s found, expected at least %d" % (n, what, least))

    # ------------------------------------------------------------ immutability
    def immutable(self, cls, member):
        """member never written after construction"""
        if self._imm is None:
            import immut
            self._imm = immut.mutable_members(self)
        return (cls, member) not in self._imm and self._known(cls, member)

    def _known(self, cls, member):
        t = self.p.types[cls]
        return t.name.startswith("xdispatch::") or t.name.startswith("waitable")

    # ------------------------------------------------------------ jobs
    def job(self, f, monitor, label=None, setup=None, args=None, models=None, this=None, **kw):
        self.jobs.append({"f": f, "monitor": monitor, "label": label or f.dem, "setup": setup,
                          "args": args, "models": models, "kw": kw, "this": this})

    def violate(self, msg, site, entry="", trace=()):
        self.violations.append((msg, site, list(trace), entry, []))

    def run(self):
        """explores all jobs on all cores"""
        global _CTX
        if not self.jobs:
            return []
        self.immutable(0, "")  # computed once before forking
        _CTX = self
        n = min(len(self.jobs), os.cpu_count() or 4)
        if n <= 1 or os.environ.get("SA_SERIAL"):
            res = [_work(i) for i in range(len(self.jobs))]
        else:
            with multiprocessing.get_context("fork").Pool(n) as pool:
                res = pool.map(_work, range(len(self.jobs)), chunksize=1)
        self.jobs = []
        self.results += res
        for r in res:
            self.violations += r["violations"]
        errs = [r for r in res if r["error"] and not r["violations"]]
        if errs and not self.violations:
            raise Broken("; ".join("%s: %s" % (r["label"], r["error"]) for r in errs[:3]))
        return res

    def fact(self, name):
        """sum of a counter maintained by the monitors"""
        return sum(r["facts"].get(name, 0) for r in self.results)


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line.split("key=", 1)[1])
    return out


def finding_key(v):
    """stable identification: message and the function it was found in"""
    msg, site, trace, entry, stack = v
    return "%s @ %s" % (msg, entry)


def main(argv):
    import props
    pid = argv[1]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    spec = props.get(pid)
    error = None
    ctx = None
    t0 = time.time()
    try:
        ctx = Ctx(pid, tier)
        ctx.t0 = t0
        # the property itself and the guarantees of other parts it is built
        # upon; one part not being decidable does not keep the others from
        # being decided
        failed = []
        for other in (None,) + tuple(spec.requires):
            name, _, part = (other or "").partition(".")
            dep = props.get(name) if other else spec
            try:
                getattr(dep, part or "check")(ctx)
                if ctx.jobs:
                    ctx.run()
            except (Broken, Budget) as x:
                failed.append(x)
                ctx.jobs = type(ctx.jobs)()
            if other and not part:
                ctx.rules = (ctx.rules or list(spec.rules)) + ["%s: %s" % (other, x) for x in dep.rules]
        if failed:
            raise failed[0]
        if not ctx.results and not ctx.counts:
            raise Broken("nothing was analysed")
    except (Broken, Budget, build.BuildError) as x:
        error = "%s: %s" % (type(x).__name__, x)
    except Exception:
        error = traceback.format_exc()
    viol = []
    if ctx is not None:
        known = known_findings(pid)
        seen = set()
        for v in ctx.violations:
            k = finding_key(v)
            if k in known:
                if k not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (pid, k))
                seen.add(k)
                continue
            viol.append(v)
        evidence(ctx, spec, tier, seed, viol, error)
    if viol:
        path = os.path.join("evidence", "%s.report.txt" % pid)
        with open(os.path.join(VERIF, path), "w") as o:
            for msg, site, trace, entry, stack in viol:
                o.write("%s\n  at %s\n  analysing %s\n" % (msg, site, entry))
                for f in stack:
                    o.write("    in %s\n" % f)
                for e in trace:
                    o.write("      %s\n" % e)
                o.write("\n")
        for msg, site, trace, entry, stack in viol[:10]:
            print("%s: %s (analysing %s)" % (site, msg, entry))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if error:
        print("ANALYSIS ERROR property=%s: %s" % (pid, error))
        return 2
    print("OK property=%s entries=%d paths=%d states=%d events=%d %.1fs" % (
        pid, len(ctx.results), sum(r["paths"] for r in ctx.results),
        sum(r.get("states", 0) for r in ctx.results),
        sum(sum(r["kinds"].values()) for r in ctx.results), time.time() - t0))
    return 0


def evidence(ctx, spec, tier, seed, viol, error):
    kinds = {}
    funcs = set()
    facts = {}
    for r in ctx.results:
        for k, n in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + n
        funcs |= set(r["functions"])
        for k, n in r["facts"].items():
            facts[k] = facts.get(k, 0) + n
    cov = {
        "explanation": spec.explanation,
        "rules": ctx.rules or list(getattr(spec, "rules", [])),
        "entries": len(ctx.results),
        "functions_analysed": len(funcs),
        "paths": sum(r["paths"] for r in ctx.results),
        "abstract_states": sum(r.get("states", 0) for r in ctx.results),
        "instructions_interpreted": sum(r["steps"] for r in ctx.results),
        "events": kinds,
        "obligations_checked": facts,
        "instances": ctx.counts,
        "samples": [r["label"] for r in ctx.results][:40] + ctx.samples[:40],
        "functions": sorted(funcs)[:400],
        "reported": [{"message": m, "site": s, "entry": e} for m, s, t, e, k in viol],
    }
    ev = {
        "property": ctx.pid, "tier": tier, "seed": seed, "level": spec.level,
        "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2),
        "assumptions": list(spec.assumptions) + ctx.assumptions,
        "violations": len(viol),
    }
    if error:
        ev["error"] = error[-2000:]
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
