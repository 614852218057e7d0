"""The properties: one Spec per id, see the modules for the rules."""
import importlib

from engine import Broken

MODULES = ["serial", "locks", "sync", "group", "queues", "pool", "signals", "timers", "args", "waits", "scopes", "exceptions", "orders", "mapping", "identity", "wrappers", "qt", "receivers", "lifetime"]


class Spec:
    id = ""
    level = "other"
    explanation = ""
    rules = ()
    assumptions = ()
    requires = ()              # ids of properties decided along with this one
    technique = "path-sensitive abstract interpretation of LLVM IR with a typestate automaton"
    level_note = (
        "Decides the listed rules for every path of every analysed function, with unbounded data and interleavings "
        "covered by havocking shared state under the stated rely conditions. Trusts clang's IR and debug info, the "
        "models of the C++ library and Qt, and the assumptions listed in the evidence.")

    def check(self, ctx):
        raise NotImplementedError


def all_specs():
    out = {}
    for m in MODULES:
        mod = importlib.import_module("props." + m)
        for x in vars(mod).values():
            if isinstance(x, type) and issubclass(x, Spec) and x is not Spec and x.id:
                out[x.id] = x
    return out


def get(pid):
    s = all_specs().get(pid)
    if s is None:
        raise Broken("unknown property " + pid)
    return s()
