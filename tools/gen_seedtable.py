#!/usr/bin/env python3
"""Developer tool: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. Never run by a check."""
import json, os, re
MISSED = set("""c01-long-key-hash
c02-reverse-stride
c06-short-write
c11-index-16
c13-u-between-l
c13-uint-signed
c14-lines-16
c14-raw-escape
c17-enum-two-marks
c18-file-handle
c19-long-format
c22-subdir-stop
c24-rehash-shared
c24-tuple-empty-leak""".split())
rows = []
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']}{'*' if i in MISSED else ''} | {m['needs']} |")
t = "<!-- seedtable -->\n" + f"{len(rows)} bugs; each is caught by the quick check of the property named (`*`: the check missed it at first and was strengthened).\n\n| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seedtable -->"
p = "/verif/DESIGN.md"; s = open(p).read()
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seedtable -->.*?<!-- /seedtable -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
