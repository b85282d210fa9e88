"""Debugging aid: all clauses rejected in a family. allrej.py FAMILY [tier] [seed]"""
import sys, random, collections, json, time
import run, props
f=props.FAMILIES[sys.argv[1]]; tier=sys.argv[2] if len(sys.argv)>2 else 'quick'
run.build({f.binary})
t=time.time()
bs,st=f.make(tier,random.Random('%s/%s'%(f.name,sys.argv[3] if len(sys.argv)>3 else '1')))
files=f.drive(bs,tier,'dbg')
n,r,rej=run.validate(files, module=f.module)
c=collections.Counter(tuple(sorted(b)) for _,_,b in rej)
print(len(bs),'behaviours',r,'runs',n,'events',len(rej),'rejects','%.0f s'%(time.time()-t))
ex={}
for fl,l,b in rej: ex.setdefault(tuple(sorted(b)),(fl,l))
for k,v in c.most_common(30): print(v,k,ex[k])
