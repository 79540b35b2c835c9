#!/usr/bin/env python3
"""addknown.py KNOWN.json < entries.json: appends entries (a JSON list). Used by
hand when a finding is recorded; no check runs it."""
import json,sys
f=sys.argv[1]
try: k=json.load(open(f))
except FileNotFoundError: k=[]
for e in json.load(sys.stdin):
    r=e.get('replay')
    if r:
        for x in ('trace','violation'): r.pop(x,None)
    k=[o for o in k if not (o['property']==e['property'] and o['what']==e['what'])]+[e]
json.dump(k,open(f,'w'),indent=1,ensure_ascii=False); open(f,'a').write('\n')
