#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (all of them were run with tools/seed.py --check)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); t = "| planted bug | caught by | needs |\n|---|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i)); t += "| %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"))
p = V + "/DESIGN.md"; s = open(p).read()
s = s.replace("CATCHTABLE", "<!-- table -->\n<!-- /table -->")
s = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda _: "<!-- table -->\n" + t + "<!-- /table -->", s, flags=re.S); open(p, "w").write(s)
