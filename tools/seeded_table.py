#!/usr/bin/env python3
# Appends the table of planted bugs to DESIGN.md (after the last heading).
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
head = open(p).read().split("## 5. Planted bugs")[0] + "## 5. Planted bugs\n\n"
head += ("Each was confirmed in a scratch copy (applies, builds, tests pass, demo fails only with it) and each is caught by the quick check\n"
         "of its property. Those marked * were missed at first and led to stronger harnesses.\n\n"
         "| id | caught by | what it breaks | needs |\n|---|---|---|---|\n")
star = {"c03-header-wrap", "c05-ack-sixteen-free", "c07-eagain-renumbers", "c11-control-split", "c12-full-buffer-command", "c22-resend-index"}
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    rows.append("| %s%s | %s | %s | %s |" % (i, "*" if i in star else "", m["property"], m["what_it_breaks"], m["needs"]))
tail = "\n\n" + open(os.path.join(V, "tools", "design_tail.md")).read() if os.path.exists(os.path.join(V, "tools", "design_tail.md")) else "\n"
open(p, "w").write(head + "\n".join(rows) + tail)
