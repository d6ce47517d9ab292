import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for p in e['coverage']['passes']:
    print(p['harness'],'race' if p['race'] else '',p['executions'],p['exhaustive'])
    for s in sorted(p['spaces'],key=lambda s:-s['executions'])[:8]: print('  ',s['executions'],s['bound'],s['exhaustive'],s['name'][:90])
