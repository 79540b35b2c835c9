#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md: properties, defects, planted bugs."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = json.load(open(V + '/known-findings.json'))
man = json.load(open(V + '/MANIFEST.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = {c['property_id'] if 'property_id' in c else c['property'] for c in man['checks']}

def table(head, rows):
    return '\n'.join(['| ' + ' | '.join(head) + ' |', '|' + '---|' * len(head)] + ['| ' + ' | '.join(str(x).replace('|', '\\|') for x in r) + ' |' for r in rows])

def findings():
    o = {}
    for e in known:
        k = (e['status'], e.get('commit', ''), e['what'])
        o.setdefault(k, [])
        if e['property'] not in o[k]:
            o[k].append(e['property'])
    fixed = [('`%s`' % k[1], ' '.join(v), k[2]) for k, v in o.items() if k[0] == 'fixed']
    find = [(' '.join(v), k[2]) for k, v in o.items() if k[0] == 'finding']
    return ('### Repaired (%d)\n\n' % len(fixed)) + table(['commit', 'property', 'what failed'], fixed) + \
        ('\n\n### Recorded (%d)\n\n' % len(find)) + table(['property', 'what fails'], find)

def seeded():
    caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
    rows = []
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        i = d.split('/')[-2]
        m = json.load(open(d))
        c = caught.get(i, {})
        rows.append((i, m['property'], m['what_it_breaks'], m['needs'], ' '.join(c.get('by', [])) or '?'))
    return table(['id', 'property', 'breaks', 'needs', 'caught by'], rows)

s = open(V + '/DESIGN.md').read()
for name, f in (('FINDINGS', findings), ('SEEDED', seeded)):
    s, n = re.subn(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + '\n' + f() + '\n\n' + m.group(2), s, flags=re.S)
    assert n == 1, name
open(V + '/DESIGN.md', 'w').write(s)
