import sys
from core import *
import models
p=Prog('/tmp/mir.jsonl')
e=Engine(p,models.M)
def show(pat,fn=None,maxn=8):
    for r in p.roots:
        if pat in r['path']:
            e.steps=0
            st=State()
            b=p.insts[r['root']]['body']
            args=[]
            names=dict((i,n) for i,n in b['names'])
            for i in range(1,b['args']+1):
                args.append(Sym(('arg',names.get(i,'a%d'%i)),b['locals'][i]))
            try:
                outs=e.run(st,r['root'],args)
            except Exception as x:
                import traceback; traceback.print_exc()
                print('EXC',r['path'],x); continue
            print(r['path'],r.get('self'),r.get('traitref'),len(outs))
            for o in outs[:maxn]:
                try: t=e.term(o.st,o.val) if o.kind=='ret' else o.val
                except Unsupported as x: t='?'+str(x)
                print('   ',o.kind,kstr(t)[:300], [ (n,kstr(a)[:80]) for n,a in o.st.events][:4], sorted(o.st.imprecise)[:3])
if __name__=='__main__':
    show(sys.argv[1],maxn=int(sys.argv[2]) if len(sys.argv)>2 else 8)
