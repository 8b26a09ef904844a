"""writes DESIGN.md from design_head.md, the registrations, the units and the seeds"""
import json, re, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
reg = json.load(open(f"{V}/contracts/units.json"))["properties"]
man = json.load(open(f"{V}/MANIFEST.json"))
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
def fns(u):
    out = []
    for l in open(f"{V}/contracts/{u}.rs"):
        m = re.match(r"//@fn (\S+) (.*)", l)
        if m and m[2].strip() not in out:
            out.append(m[2].strip())
    return out
units = sorted({u for r in reg.values() for u in r.get("verus", [])})
s = open(f"{V}/tools/design_head.md").read()
s += "\n## 2. Units and the functions under contract\n\n| unit | functions of /repo under contract | serves |\n|---|---|---|\n"
tot = 0
for u in units:
    f = fns(u); tot += len(f)
    s += f"| `{u}` | {', '.join('`%s`' % x for x in f)} | {' '.join(sorted(k for k, r in reg.items() if u in r.get('units', [])))} |\n"
s += f"\n{len(units)} units, {tot} function contracts (`Cascade::apply` and `compute_style` are proved in several disjoint instances).\n"
s += "\n## 3. Property by property\n"
oracle = json.load(open(f"{V}/tools/oracles.json"))
for p in P:
    i = p["id"]
    s += f"\n### {i} {p['title']}\n"
    if i in na:
        s += f"Not applicable: {na[i]}\n"
        continue
    r = reg[i]
    s += f"* Contract: {r['note']}.\n"
    if r.get("theorems"):
        s += f"* Lemmas over the contracts: {', '.join('`%s`' % t for t in r['theorems'])}.\n"
    s += f"* Units: {', '.join(r.get('units', []))}.\n* Assumed: {'; '.join(r.get('assumptions', []))}.\n"
    if i in oracle:
        s += f"* Engine B: {oracle[i]}.\n"
table = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
how = json.load(open(f"{V}/tools/caught.json"))
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    table += f"| {n} | {m['property']} | {m['needs']} | {how.get(n, '?')} |\n"
s += "\n" + open(f"{V}/tools/design_tail.md").read().replace("SEEDTABLE", table)
open(f"{V}/DESIGN.md", "w").write(s)
