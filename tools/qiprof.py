#!/usr/bin/env python3
# qiprof.py FILE.smt2 [SECONDS]: which quantifiers z3 instantiates most
import sys,subprocess,collections,re
s=open(sys.argv[1]).read(); lim=sys.argv[2] if len(sys.argv)>2 else '8'
out=[];stack=[];names={};n=0;i=0
res=[]
for k,line in enumerate(s.split('\n')):
    o='';st=[]
    j=0
    while j<len(line):
        c=line[j]
        if c=='(':
            if line.startswith('(! ',j):
                n+=1; st.append(n); names['Q%d'%n]=(k+1,j)
            else: st.append(0)
            o+=c
        elif c==')':
            t=st.pop() if st else 0
            if t: o+=' :qid Q%d'%t
            o+=c
        else: o+=c
        j+=1
    res.append(o)
q='(set-option :smt.qi.profile true)(set-option :smt.qi.profile_freq 1000)\n'+'\n'.join(res)
r=subprocess.run(['z3-new','-in','-T:'+lim]+sys.argv[3:],input=q,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout
print(r[-300:])
c=collections.Counter()
for m in re.finditer(r'quantifier_instances\]\s+(\S+)\s*:\s*(\d+)\s*:\s*(\d+)\s*:\s*(\d+)',r):
    c[m.group(1)]=max(c[m.group(1)],int(m.group(2)))
ls=s.split('\n')
for q,v in c.most_common(14):
    if q in names:
        l,j=names[q]; print(v,q,'line',l,ls[l-1][max(0,j-60):j+260])
    else: print(v,q)
