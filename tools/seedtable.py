#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (section 5) from seeded/*/meta.json."""
import glob, json, os, re, collections
rows = collections.defaultdict(list)
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m))
    rows[d["property"]].append("`%s` (%s)" % (os.path.basename(os.path.dirname(m)), d["needs"].rstrip(".")))
table = "| property | planted bugs (what each needs to manifest) |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, "; ".join(rows[p])) for p in sorted(rows))
t = open("/verif/DESIGN.md").read()
t = re.sub(r"`seeded/` holds \d+ changes", "`seeded/` holds %d changes" % sum(map(len, rows.values())), t)
t = re.sub(r"\| property \| planted bugs.*?\n\n", lambda m: table + "\n", t, flags=re.S)
open("/verif/DESIGN.md", "w").write(t)
