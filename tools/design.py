#!/usr/bin/env python3
"""Rewrites the list of planted changes and the number of repairs in DESIGN.md."""
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 "c03-cached-stream": "missed at first: outputs were compared with each other and with the model, but a cached stream was equal in all of them; led to the unwritten twin",
 "c08-unexpected-eof": "missed at first: simulated errors were all of one private kind; led to the error kinds",
 "c22-exact-height": "missed at first: exact fits never came up by chance; led to the exact positions, widths and radii",
 "c11-long-owner": "missed at first: no password was longer than 32 bytes",
 "c11-object-key": "missed at first: it needs an object number above 255; led to documents of hundreds of objects",
}
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(f)); i = f.split("/")[-2]
    rows.append("- `%s` (%s): %s. Needs: %s. Caught%s" % (i, d["property"], d["what_it_breaks"].rstrip("."), d["needs"].rstrip("."), " (%s)." % MISSED[i] if i in MISSED else "."))
p = here + "/DESIGN.md"
s = open(p).read()
n = sum(k["status"] == "fixed" for k in json.load(open(here + "/known-findings.json")))
s = re.sub(r"(`fixed: property=\.\.\.`\): )\S+?( repairs)?\. Not", lambda m: m.group(1) + "%d repairs. Not" % n, s)
log = open("/tmp/allq.log").read() if os.path.exists("/tmp/allq.log") else "" # lines "ID rc=0 SECONDSs ... in WORLDS simulated"
secs = {i: (s, w) for i, s, w in re.findall(r"(C\d\d) rc=0 (\d+)s.* in (\d+) sim", log)}
def cost(m):
    i = m.group(1)
    return "| %s %s| %s |" % (i, m.group(2), ("%s, %s s" % (secs[i][1], secs[i][0]) if i in secs else m.group(3) + (m.group(4) or ""))) 
s = re.sub(r"(?m)^\| (C\d\d) (.*)\| (\d+)(, \d+ s)? \|$", cost, s)
h = s.index("## 6. Planted changes")
s = s[:h] + "## 6. Planted changes\n\nIn `seeded/`, each verified (applies, builds, passes the stable tests, demo passes\nwithout and fails with it) and run against the check of its property:\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
