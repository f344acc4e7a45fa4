"""DESIGN.md = tools/design_head.md + per-property sections from props/ + table of planted bugs (tools/caught.json)."""
import importlib, json, os, sys, glob
V = "/verif"; sys.path[:0] = [V + "/vlib", V + "/props"]
P = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
out = [open(V + "/tools/design_head.md").read(), "## 4. Properties\n"]
for c in sorted(P):
    m = importlib.import_module(c); g = m.groups("quick"); n = m.NATIVE
    out += ["### %s %s\n" % (c, P[c]["title"]), P[c]["statement"] + "\n", "*Proved.* " + m.EXPLANATION + "\n", "*Groups:* " + ", ".join(x.name for x in g) + ".\n"]
    if m.ASSUMPTIONS: out.append("*Assumed, unchecked by proof:*\n" + "\n".join("- " + a for a in m.ASSUMPTIONS) + "\n")
    if m.TRUSTED: out.append("*Trusted:* " + "; ".join(m.TRUSTED) + ".\n")
    out.append("*Native stand-in (bounded):* " + n.bound + ".\n")
out.append("## 5. Planted bugs\n\nEach is kept in seeded/ or seeded_more/ (same layout; set apart to keep vcheck short) with a demonstration; all compile and pass the stable tests. \"by\" is what reported it.\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
C = json.load(open(V + "/tools/caught.json"))
for d in sorted(glob.glob(V + "/seeded*/*/meta.json"), key=lambda d: d.split("/")[-2]):
    i = d.split("/")[-2]; m = json.load(open(d)); out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], C.get(i, "?")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
