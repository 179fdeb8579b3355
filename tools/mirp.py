import json,sys
d=json.load(open(sys.argv[1]))
T=d['types']
def ty(i): return T[i]['s']
def show(i):
    b=d['bodies'][i]
    print("fn",i,b['path'],'argc',b['argc'],'closure' if b.get('closure') else '', b['span'])
    for k,l in enumerate(b['locals']): print("  let",k,':',ty(l)[:100])
    print("  names",b['names'])
    for n,bb in enumerate(b['blocks']):
        if bb['cleanup']: continue
        print(" bb%d:"%n)
        for s in bb['s']: print("    ",json.dumps(s)[:300])
        t=bb['t']
        if t[0]=='call' and 'def' in t[1]:
            f=t[1]['def']; t=['call',f['path'], f.get('r',{}).get('path'), f.get('inst'), f.get('args')]+t[2:]
        print("    T",json.dumps(t)[:400])
for a in sys.argv[2:]:
    for i,b in enumerate(d['bodies']):
        if b and b.get('path','').endswith(a): show(i)
