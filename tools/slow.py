import json,collections,re,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1])); S=d['coverage']['samples']
T=collections.Counter(); N=collections.Counter()
for h in S:
    k='.'.join(h['task'].split('.')[:2]); T[k]+=h['wall_s'] or 0; N[k]+=1
for k,v in T.most_common(16): print(k,round(v,1),N[k])
for h in sorted(S,key=lambda h:-(h['wall_s'] or 0))[:16]: print(h['task'],h['wall_s'],h['paths'],h['status'])
