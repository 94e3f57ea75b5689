#!/usr/bin/env python3
"""Fills in the generated parts of DESIGN.md from tools/props.py, the last evidence of each check, and a file of the results of hit.sh
(design.py [HITS]); what is between the markers is replaced."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
man = json.load(open(here + '/MANIFEST.json'))
note = {c.get('property') or c.get('property_id') or c.get('id'): c for c in man.get('checks', man.get('properties', []))}

def num(n):
    return f"{n:,}".replace(",", " ")

def table():
    out = []
    for p in props:
        i = p['id']
        e = json.load(open(f"{here}/evidence/{i}.json"))
        c = e['coverage']
        out.append(f"### {i}: {p['title']}\n")
        t = note.get(i, {}).get('technique')
        if t:
            out.append(f"*{t[0].upper() + t[1:]}.*  ")
        total = sum(s['executions'] for s in c['spaces'])
        wall = sum(s['wall_s'] for s in c['spaces'])
        out.append(f"{num(total)} executions, {num(sum(s['operations'] for s in c['spaces']))} operations, about {max(1, round(wall))} s, {'every space exhausted' if c['exhaustive'] else 'NOT exhausted'}.")
        for a in e['assumptions']:
            out.append(f"Assumes: {a}.")
        out.append("")
        for s in c['spaces']:
            out.append(f"* `{s['space']}`: {s['bound']} ({num(s['executions'])})")
        out.append("")
    return "\n".join(out)

def seeded():
    hits = {}
    path = sys.argv[1] if len(sys.argv) > 1 else here + '/tools/hits.txt'
    for l in open(path):
        m = re.match(r"(\S+) (caught|MISSED)\S* ?\S*:?\s*(\S+)?", l)
        if m:
            m2 = re.match(r"\S+ caught \d+s:\s+(\S+?):", l)
            hits[m.group(1)] = (m.group(2), m2.group(1) if m2 else "")
    out = ["| change | needs | caught by |", "|---|---|---|"]
    n = k = 0
    for d in sorted(os.listdir(here + '/seeded')):
        m = json.load(open(f"{here}/seeded/{d}/meta.json"))
        h = hits.get(d, ("not run", ""))
        n += 1
        k += h[0] == "caught"
        by = f"{m['property']} `{h[1]}`" if h[0] == "caught" else h[0]
        out.append(f"| {d} | {m['needs'].replace('|', '/').replace(chr(10), ' ')} | {by} |")
    return f"{k} of {n} are caught (`tools/hit.sh`).\n\n" + "\n".join(out)

s = open(here + '/DESIGN.md').read()
for name, f in (("table", table), ("seeded", seeded)):
    b, e = f"<!-- begin {name} -->", f"<!-- end {name} -->"
    i, j = s.index(b), s.index(e)
    s = s[:i] + b + "\n\n" + f().rstrip() + "\n\n" + s[j:]
open(here + '/DESIGN.md', 'w').write(s)
