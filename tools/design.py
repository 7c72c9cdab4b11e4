"""writes DESIGN.md from tools/design.md.in, tools/props.py, the evidence of the last runs and seeded/"""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(HERE + "/tools/props.py").read(), ns)
tpl = open(HERE + "/tools/design.md.in").read()
body, notes = tpl.split("=====PER PROPERTY=====\n")
parts = dict(re.findall(r"^@(C\d+)\n(.*?)(?=^@C\d+\n|\Z)", notes, re.S | re.M))
seeds = {}
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((m.split("/")[-2], d))
out = []
for p in sorted(ns["PROPS"], key=lambda p: p["id"]):
    if not os.path.exists(HERE + "/checks/%s.py" % p["id"]):
        continue
    out.append("### %s: %s\n\n%s\n" % (p["id"], p["title"], parts[p["id"]].strip()))
    try:
        e = json.load(open(HERE + "/evidence/%s.json" % p["id"]))
        assert e["tier"] == "quick" and not e["violations"]
        g = e["coverage"]["groups"]
        # groups of one pattern (orders of N keys) are summed up
        s = {}
        for k, v in g.items():
            s[re.sub(r"\d+", "N", k)] = s.get(re.sub(r"\d+", "N", k), 0) + v["cases"]
        out.append("Quick tier: %s.\n" % ", ".join("%s %d" % kv for kv in s.items()))
    except Exception as x:
        print("no evidence of", p["id"], repr(x))
    for i, d in seeds.get(p["id"], []):
        out.append("- Catches planted bug `%s`: %s." % (i, d["what_it_breaks"]))
    out.append("")
open(HERE + "/DESIGN.md", "w").write(body.replace("@PROPERTIES@", "\n".join(out)))
for k in parts:
    if k not in [p["id"] for p in ns["PROPS"]]:
        print("superfluous", k)
