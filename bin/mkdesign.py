"""authoring tool: DESIGN.md from doc/*.md, known_findings.json, seeded/*/meta.json and doc/caught.json"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = lambda p: open(V + "/" + p).read()
o = R("doc/design.body.md") + R("doc/props.md") + R("doc/tolerances.md")
f = json.loads(R("known_findings.json"))["findings"]
o += "\n## Findings\n\nOpen (listed in known_findings.json, reported as KNOWN-FINDING):\n"
for x in f:
    if "fixed" not in x: o += "- %s `%s`: %s. Not repaired: it needs the type of the selector while the words of the instruction are still being read, i.e. a change of the reader's structure.\n" % (x["property"], x["id"], x["what"]) if x["id"] == "switch64" else "- %s `%s`: %s\n" % (x["property"], x["id"], x["what"])
o += "\nRepaired (each a `fix:` commit in /repo; suppresses nothing):\n"
for x in f:
    if "fixed" in x: o += "- %s\n" % x["what"].replace("fixed: property=", "")
c = json.loads(R("doc/caught.json")) if os.path.exists(V + "/doc/caught.json") else {}
o += "\n## Planted bugs\n\n| seed | property | needs | caught by |\n|---|---|---|---|\n"
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(p)); m = json.load(open(p)); o += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), c.get(i, "?"))
o += "\n" + R("doc/notes.md")
open(V + "/DESIGN.md", "w").write(o)
