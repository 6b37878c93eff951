"""ctx.py TRACE IDX [n]: context of a refused cursor event"""
import json,sys
L=[json.loads(l) for l in open(sys.argv[1])]
i=int(sys.argv[2]); n=int(sys.argv[3]) if len(sys.argv)>3 else 8
e=L[i] if i<len(L) else L[-1]; c=e.get('c')
H=[j for j in range(i+1) if L[j].get('c')==c or L[j].get('c2')==c][-n:]
start=H[0] if H else i-n
d=[x for x in L[:i] if x['e']=='copen' and x['c']==c]
dd=d[-1]['d'] if d else e.get('d')
for j in range(start,i+1):
    x=L[j]
    if j in H or (x['e'] in('put','del','replace','drop') and x.get('d')==dd and x['r']==0) or x['e'] in('cput','cdel','putm','commit','abort','begin') and x['r']==0:
        print({k:v for k,v in x.items() if k not in('w','ov')})
