from prover import *
p=(1<<256)-(1<<224)+(1<<192)+(1<<96)-1
T.PRIMES.add(p)
x1,y1,x2,y2=[S(n,0,p-1) for n in('x1','y1','x2','y2')]
a,b=p-3,S('b',0,p-1)
c=Ctx().add(not_(eq(x1,x2)), eq0(Mod(y1*y1-x1*x1*x1-x1*a-b,p)), eq0(Mod(y2*y2-x2*x2*x2-x2*a-b,p)))
lam=Mod((y1-y2)*Inv(x1-x2,p),p)
rx=Mod(lam*lam-x1-x2,p); ry=Mod(lam*(x1-rx)-y1,p); ry2=Mod(lam*(x2-rx)-y2,p)
t=time.time()
r=prove(eq(ry,ry2),c); print(r.ok,r.how,time.time()-t)
t=time.time()
r=prove(eq0(Mod(ry*ry-rx*rx*rx-rx*a-b,p)),c); print(r.ok,r.how,time.time()-t)
r=prove(eq0(Mod(ry*ry-rx*rx*rx-rx*a-b-1,p)),c,use_z3=False); print(r.ok,r.how)
r=prove(eq(ry,Mod(ry2+1,p)),c,use_z3=False); print(r.ok,r.how)
