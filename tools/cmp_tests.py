import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
p=set(o.get('passed') or o.get('pass') or [])
print('missing stable:', [t for t in b['stable'] if t not in p], {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
