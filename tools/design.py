"""Writes DESIGN.md: the hand written parts in tools/design_*.md and, for each property, what its check says about itself."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "sa"))
import catalog  # noqa: E402
import props  # noqa: E402
import props.common  # noqa: E402
from design_notes import LIMITS, CAUGHT, SEEDS  # noqa: E402


def seeds():
    import json
    d = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, "meta.json")))
        SEEDS.setdefault(m["property"], []).append(s)


def main():
    seeds()
    out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## Properties", ""]
    for q in catalog.PROPERTIES:
        pid = q["id"]
        out.append("### %s %s" % (pid, q["title"]))
        out.append("")
        if pid in catalog.NOT_APPLICABLE:
            out += ["Not applicable: " + catalog.NOT_APPLICABLE[pid], ""]
            continue
        s = props.get(pid)
        out += ["Method: %s." % s.technique, "", s.explanation, "", "Rules deciding a violation:", ""]
        out += ["* " + r for r in s.rules]
        extra = [a for a in s.assumptions if a not in props.common.BASE_ASSUMPTIONS]
        if extra:
            out += ["", "Assumed: " + "; ".join(extra) + "."]
        if s.requires:
            out += ["", "Runs along (facts relied on are decided in the same run): " + ", ".join(x.replace(".queue", " (detaching queues)") for x in s.requires) + "."]
        if pid in LIMITS:
            out += ["", "Limits: " + LIMITS[pid]]
        if pid in CAUGHT:
            out += ["", "Changes tried: " + CAUGHT[pid]]
        if pid in SEEDS:
            out += ["", "Planted in seeded/: " + ", ".join(SEEDS[pid]) + "."]
        out.append("")
    out.append(open(os.path.join(HERE, "design_tail.md")).read().rstrip())
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
