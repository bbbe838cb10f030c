import json, os
V = "/verif"; rows = ["| planted bug | property | caught by its check | needs |", "|---|---|---|---|"]
miss = json.load(open(V + "/tools/seedgen/missed.json")) if os.path.exists(V + "/tools/seedgen/missed.json") else []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); rows.append(f"| {d} | {m['property']} | {'no' if d in miss else 'yes'} | {m['needs']} |")
p = V + "/DESIGN.md"; s = open(p).read()
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE", "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->")
else:
    i = s.index("<!-- seeds -->"); j = s.index("<!-- /seeds -->"); s = s[:i] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
