"""Entry functions of the library for the checks covering all of it."""
from engine import *
from ir import *


def repo_file(f):
    return bool(f.file) and ("/repo/" in f.file) and "/3rdparty/" not in f.file


def entries(ctx, life=False):
    """functions which may be called by users, by other components or by
    address: all of them together with what they call inline are analysed"""
    refs = ctx.refs()
    p = ctx.p
    out = []
    for f in sorted(p.funcs.values(), key=lambda f: (f.dem, f.name)):
        if not repo_file(f) or f.name.startswith(("_GLOBAL__", "__cxx_global", "__tls")):
            continue
        if f.ctor and not (life and "~" in f.base):
            continue
        if f.key == "xdispatch::queue::operator=":
            # handles are values, assigning to one is no operation on a queue
            continue
        if takes_lock(p, f):
            continue
        if ctx.address_taken(f.name):
            out.append(f)
            continue
        who = callers(ctx, f)
        if f.cls >= 0 and is_closure(f):
            if "@" in who:
                out.append(f)
            continue
        if helper_class(f):
            continue
        outside = [w for w in who if w == "@" or not same_class(p, p.funcs[w], f)]
        if f.cls >= 0:
            # static member functions have no class argument, their access
            # is known nevertheless
            if f.acc == 3 and (outside or not who or "/include/" in f.file):
                out.append(f)
            elif "@" in who:
                out.append(f)
        elif f.acc in (1, 2):
            if "@" in who:
                out.append(f)
        elif not f.internal or "@" in who:
            out.append(f)
    return out


def takes_lock(p, f):
    for d in f.di[1:]:
        c = p.canon(d)
        if c >= 0 and p.types[c].tag in (TAG_PTR, TAG_REF, TAG_RREF):
            b = p.canon(p.types[c].base)
            if b >= 0 and p.types[b].name.startswith(("std::unique_lock<", "std::lock_guard<")):
                return True
    return False


def is_closure(f):
    return f.base == "operator()" and any(x in f.ctx for x in ("$_", "lambda"))


def callers(ctx, f):
    """functions of the library which mention f, directly or through
    library templates, "@" stands for the address being stored"""
    refs = ctx.refs()
    out = set()
    seen = set()
    work = [f.name]
    while work:
        n = work.pop()
        for w in refs.get(n, ()):
            if w in seen:
                continue
            seen.add(w)
            if w.startswith("@"):
                out.add("@")
                continue
            g = ctx.p.funcs[w]
            if repo_file(g):
                out.add(w)
            elif ctx.address_taken(w):
                out.add("@")
            else:
                work.append(w)
    return out


def same_class(p, g, f):
    """is g part of the class of f (closures and local classes included)"""
    if f.cls >= 0:
        own = p.types[p.canon(f.cls)].name
    else:
        own = f.ctx
    return bool(own) and (g.ctx == f.ctx or g.dem.startswith(own + "::") or
                          (" " + own + "::") in g.dem.split("(")[0])


def helper_class(f):
    """scope guards and the like which only exist inside of other functions"""
    return ")::" in f.ctx
