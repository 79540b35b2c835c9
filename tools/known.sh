#!/bin/bash
# known.sh SIMBIN: replays every entry of known-findings.json and prints the verdicts.
python3 - "$1" "$(dirname "$0")/../known-findings.json" <<'PY'
import json,subprocess,sys,os,tempfile
for e in json.load(open(sys.argv[2])):
    if not e.get('replay'): continue
    r=dict(e['replay']); r['property']=e['property']
    with tempfile.NamedTemporaryFile('w',suffix='.json',delete=False) as f: json.dump(r,f)
    p=subprocess.run([sys.argv[1],'replay',f.name],capture_output=True,text=True,env=dict(os.environ,GOMAXPROCS='1')); os.unlink(f.name)
    k=[l for l in p.stdout.split('\n') if l.startswith(e['kind']+': ')]
    print(e['status'],e.get('commit',''),e['property'],'there' if k else ('quiet' if p.returncode==0 else 'rc %d %s'%(p.returncode,p.stdout.strip().split('\n')[-1][:120])),'|',e['what'])
PY
