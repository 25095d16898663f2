"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
caught = {}
for l in open("tools/caught.txt"):
    i, *r = l.split(None, 1)
    caught[i] = r[0].strip() if r else ""
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    i = f.split("/")[1]
    m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, 'not run yet')} |")
s = open("DESIGN.md").read()
a = s.index("## 5. ")
head = s[a:].splitlines()[0]
s = s[:a] + head + "\n\nEach was written from the statement and the code, keeps the 78 stable tests passing, and has its own\ndemonstration. The last column names the suite of the quick check that reported it.\n\n" + "\n".join(rows) + "\n"
open("DESIGN.md", "w").write(s)
