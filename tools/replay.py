"""replay.py PROPERTY: readable scenario of the latest violation"""
import json, sys
r=json.load(open(f'work/{sys.argv[1]}/replay.json'));s=r['scenario']
print(s['id']);print(s['html']);print(s['css'])
def un(v):
    return v.get('n') if v['t']=='n' else v.get('s') if v['t'] in 'sd' else v.get('b') if v['t']=='b' else [un(x) for x in v['a']] if v['t']=='a' else {k:un(x) for k,x in v['o']} if v['t']=='o' else None
for i, st in enumerate(s['steps']): print(i+1, json.dumps(un(st['value']))[:600], st['dt'], st['vp'], st['ev'])
for d in r["differences"][:5]: print(json.dumps(d)[:300])
