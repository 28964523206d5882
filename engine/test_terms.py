from terms import *
import random,sys,time
x=S('x',0,255); y=S('y',0,2**32-1); z=S('z',-INF,INF)
def gen(d,env):
    if d==0:
        s=random.choice(['x','y','z','k'])
        if s=='k':
            k=random.randint(-300,300); return P(k),k
        t={'x':x,'y':y,'z':z}[s]; return t,env[t.atom()]
    o=random.choice(['+','-','*','mod','div','ite','xor','and','or','bit','mask','shr'])
    a,va=gen(d-1,env); b,vb=gen(d-1,env); m=random.choice([2,4,7,16,97,256,2**16,2**32])
    if o=='+': return a+b,va+vb
    if o=='-': return a-b,va-vb
    if o=='*': return a*b,va*vb
    if o=='mod': return Mod(a,m),va%m
    if o=='div': return Div(a,m),va//m
    if o=='ite':
        c=random.choice([le,eq,lt])(a,b)
        vc=evb(c,env)
        return ite(c,a,b),(va if vc else vb)
    a,va=Mod(a,2**32),va%2**32
    b,vb=Mod(b,2**32),vb%2**32
    if o=='xor': return Xor(a,b,32),va^vb
    if o=='and': return And(a,b,32),va&vb
    if o=='or': return Or(a,b,32),va|vb
    if o=='mask':
        k=random.getrandbits(32); return And(a,k,32),va&k
    if o=='shr': return Div(a,256),va>>8
    return Bit(a,5),(va>>5)&1
def main(n):
    bad=0
    t=time.time()
    for i in range(n):
        env={x.atom():random.choice([0,1,255,random.getrandbits(8)]),y.atom():random.choice([0,2**32-1,random.getrandbits(32)]),z.atom():random.randint(-10**6,10**6)}
        p,v=gen(random.randint(1,4),env)
        if ev(p,env)!=v: bad+=1; print('BAD',p,v,ev(p,env),env);
        lo,hi=rng(p)
        if not lo<=v<=hi: bad+=1; print('BADR',p,v,lo,hi)
        q,w=gen(2,env)
        for f,r in ((le,v<=w),(eq,v==w),(lt,v<w)):
            if evb(f(p,q),env)!=r: bad+=1; print('BADC',f,p,q)
        if bad>3: break
    print(n,'cases',bad,'bad',round(time.time()-t,1),'s')
    return bad
if __name__=='__main__':
    random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 1)
    PRIMES.update([7,97])
    sys.exit(1 if main(int(sys.argv[2]) if len(sys.argv)>2 else 3000) else 0)
