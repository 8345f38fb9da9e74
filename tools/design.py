"""Rewrites the generated tables of DESIGN.md (findings, planted bugs) from known_findings.json and seeded/."""
import glob, json, os, re
V = "/verif"
s = open(V + "/DESIGN.md").read()


def block(name, text):
    global s
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    new = a + "\n" + text + "\n" + b
    s = s.replace("@@%s@@" % name.upper(), new) if "@@%s@@" % name.upper() in s else re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: new, s, flags=re.S)


rows = []
for d in json.load(open(V + "/known_findings.json")):
    if d["status"] == "fixed":
        m = re.match(r"fixed: property=(P\d+) (\w+) (.*)", d["entry"])
        rows.append("| %s | fixed `%s` | %s |" % (m[1], m[2][:7], m[3]))
    else:
        rows.append("| %s | recorded | %s |" % (d["property"], d.get("what", d.get("entry", ""))))
block("findings", "| Property | Status | What failed |\n|---|---|---|\n" + "\n".join(rows))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
block("seeds", "| Bug | Caught by | Needs |\n|---|---|---|\n" + "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
