import sys,collections,time
from core import *
import models
p=Prog(sys.argv[1] if len(sys.argv)>1 else '/tmp/mir.jsonl')
e=Engine(p,models.M)
e.max_steps=6000
res=collections.Counter(); uns=collections.Counter(); imp=collections.Counter(); bad=[]
t0=time.time()
for r in p.roots:
    e.steps=0
    st=State(); b=p.insts[r['root']]['body']
    args=[Sym(('arg','a%d'%i),b['locals'][i]) for i in range(1,b['args']+1)]
    try: outs=e.run(st,r['root'],args)
    except Budget: res['budget']+=1; bad.append((r['path'],'budget')); continue
    except NeedFork: res['fork?']+=1; bad.append((r['path'],'NEEDFORK')); continue
    except RecursionError: res['rec']+=1; bad.append((r['path'],'rec')); continue
    except (Unsupported,) as x: uns[str(x)[:90]]+=1; res['unsup']+=1; continue
    ks=set(o.kind for o in outs)
    im=set()
    for o in outs:
        im|=o.st.imprecise
        if o.kind=='unsup': uns[o.val[:110]]+=1
    for i in im: imp[i]+=1
    if 'unsup' in ks: res['unsup']+=1
    elif im: res['imprecise']+=1
    else: res['ok']+=1
print(res,time.time()-t0)
for k,v in uns.most_common(45): print(v,k)
print('IMP',imp.most_common(60))
print(bad[:60])
