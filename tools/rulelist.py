"""Writes RULES.md: every rule with its properties, floor and what it requires."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import sa.core
import sa.rules

out = ["# Rules", "", "Written by tools/rulelist.py from the rules themselves. Floor: the least number of obligations; a rule that finds fewer gives no answer.", ""]
mod = None
for r in sa.core.RULES:
    m = r.fn.__module__.rsplit(".", 1)[-1] if hasattr(r, "fn") else r.func.__module__.rsplit(".", 1)[-1]
    if m != mod:
        out += ["", "## sa/rules/%s.py" % m, ""]
        mod = m
    doc = " ".join(((getattr(r, "doc", None) or r.fn.__doc__) or "").split())
    out.append("* **%s** (%s; floor %d): %s" % (r.name, " ".join(r.props), r.floor, doc))
open(os.path.join(HERE, "RULES.md"), "w").write("\n".join(out) + "\n")
print(len(sa.core.RULES), "rules")
