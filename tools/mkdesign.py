"""DESIGN.md from tools/design.in.md, tools/notes.json and seeded/*/meta.json"""
import glob
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
notes = json.load(open(f"{here}/notes.json"))
props = [json.loads(l) for l in open(f"{here}/../properties.jsonl")]
rows = []
for p in props:
    n = notes[p["id"]]
    rows.append(f"| **{p['id']}** {p['title']} | {n.get('contracts', n['note']) if n['level'] == 'proof' else 'none yet: ' + n['note']} | {n['bounded']} |")
seeds = ["| planted bug | needs | caught by |", "|---|---|---|"]
caught = json.load(open(f"{here}/caught.json")) if os.path.exists(f"{here}/caught.json") else {}
for m in sorted(glob.glob(f"{here}/../seeded/*/meta.json")):
    d = json.load(open(m))
    k = os.path.basename(os.path.dirname(m))
    seeds.append(f"| {k} | {d['needs']} | {caught.get(k, d['property'] + ' (bounded part)')} |")
s = open(f"{here}/design.in.md").read().replace("@TABLE@", "\n".join(rows)).replace("@SEEDS@", "\n".join(seeds))
open(f"{here}/../DESIGN.md", "w").write(s)
