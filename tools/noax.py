#!/usr/bin/env python3
# noax.py FILE KEEP,..: the parts of FILE's goal, tried without the axioms of recursive functions but those named
import sys,re,subprocess,time
sys.setrecursionlimit(10000)
s=open(sys.argv[1]).read(); keep=sys.argv[2].split(',') if len(sys.argv)>2 else []
def sx(s):
    out=[];d=0;st=-1
    for i,c in enumerate(s):
        if c=='(':
            if d==0 and st<0: st=i
            d+=1
        elif c==')':
            d-=1
            if d==0: out.append(s[st:i+1]);st=-1
        elif c in ' \n':
            if d==0 and st>=0: out.append(s[st:i]);st=-1
        elif st<0: st=i
    if st>=0: out.append(s[st:])
    return out
def split(g):
    g=g.strip()
    if g.startswith('(and '): return [q for p in sx(g[5:-1]) for q in split(p)]
    if g.startswith('(=> '):
        p=sx(g[4:-1])
        return ['(=> %s %s)'%(p[0],q) for q in split(p[1])]
    if g.startswith('(forall '):
        p=sx(g[8:-1]); b=p[1]; tail=''
        if b.startswith('(! '):
            q=sx(b[3:-1]); bs=split(q[0]); return ['(forall %s (! %s %s))'%(p[0],x,' '.join(q[1:])) for x in bs] if len(bs)>1 else [g]
    return [g]
ls=s.split('\n')
gi=max(i for i,l in enumerate(ls) if l.startswith('(assert (not '))
goal=ls[gi][len('(assert (not '):-2]
head=[]
for l in ls[:gi]:
    if l.startswith('(assert (forall ((ly Fuel)') and 'all' not in keep:
        m=re.search(r':pattern \(\((f!\w+) ',l)
        syn=m and re.search(r'\(! \(= \((f!\w+) \(LS ly\)([^()]*)\) \(\1 ly\2\)\)',l)
        if not syn and (not m or m.group(1)[2:] not in keep): continue
    head.append(l)
for p in split(goal):
    t=time.time()
    r=subprocess.run(['z3-new','-in','-T:10'],input='\n'.join(head)+'\n(assert (not %s))\n(check-sat)\n'%p,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout.strip().split('\n')[-1][:80]
    print(r,'%.1f'%(time.time()-t),p[:150] if r!='unsat' else '')
