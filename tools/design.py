#!/usr/bin/env python3
"""Write DESIGN.md: the text of design.md.in, with the bounds of every property taken from the
modules that enforce them and the table of planted bugs from seeded/ and seeded_results.json."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    props[p["id"]] = p


def const(pid):
    f = os.path.join(V, "mc/props/%s.py" % pid.lower())
    s = open(f).read()
    if "import" in s and len(s) < 2500:                 # C08 and C09 share mc/arith.py
        s += open(os.path.join(V, "mc/arith.py")).read()
    d = {}
    for n in ast.parse(s).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in (
                "RULE", "BOUNDS", "ASSUMPTIONS"):
            try:
                d.setdefault(n.targets[0].id, ast.literal_eval(n.value))
            except ValueError:
                pass
    return d


def bounds(pid):
    d = const(pid)
    o = ["*Execution.* " + d["RULE"][0].upper() + d["RULE"][1:] + "."]
    o.append("*Quick bounds.* " + d["BOUNDS"]["quick"] + ".")
    o.append("*Thorough bounds.* " + d["BOUNDS"]["thorough"] + ".")
    o.append("*Assumptions.* " + "; ".join(d["ASSUMPTIONS"]) + ".")
    return "\n\n".join(o)


def table():
    rf = os.path.join(V, "tools/planted_results.json")
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    base = os.path.join(V, "seeded")
    for i in sorted(os.listdir(base) if os.path.isdir(base) else [],
                    key=lambda i: (json.load(open(os.path.join(base, i, "meta.json")))["property"], i)):
        m = json.load(open(os.path.join(base, i, "meta.json")))
        r = res.get(i)
        c = "(not run)" if r is None else ", ".join(k for k in sorted(r) if r[k] == 1) or "-- none --"
        missed = "" if not r else ", ".join(k for k in sorted(r) if r[k] != 1)
        rows.append("| %s | %s | %s | %s%s |" % (i, m["property"], m["needs"].replace("|", "\\|"), c,
                                                  " (not by %s)" % missed if missed else ""))
    return "\n".join(rows)


t = open(os.path.join(V, "tools/design.md.in")).read()
t = re.sub(r"@BOUNDS (C\d\d)@", lambda m: bounds(m.group(1)), t)
t = re.sub(r"@TITLE (C\d\d)@", lambda m: m.group(1) + " " + props[m.group(1)]["title"], t)
t = t.replace("@PLANTED@", table())
open(os.path.join(V, "DESIGN.md"), "w").write(t)
