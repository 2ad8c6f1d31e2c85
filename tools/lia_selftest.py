"""differential self-test of irv/lia.py (the integer translation of 64-bit terms) against the bit-blasting solver; not part of any check"""
import sys,glob,time; sys.path.insert(0,__file__.rsplit('/', 2)[0])
import z3
from irv import solve,lia
# random soundness test of the translation
import random
random.seed(5)
x=[z3.BitVec('x%d'%i,64) for i in range(2)]; y=[z3.BitVec('y%d'%i,8) for i in range(2)]
def g(w,d):
    r=random.randrange(9)
    if d==0: return random.choice([z3.BitVecVal(random.choice([0,1,2,3,(1<<w)-1,1<<(w-1),random.getrandbits(w)]),w)]+([random.choice(x)]*3 if w==64 else [])+([random.choice(y)]*2 if w==8 else [])+([z3.Extract(w+3,4,random.choice(x))] if w<60 else []))
    if r==0: return g(w,d-1)+g(w,d-1)
    if r==1: return g(w,d-1)-g(w,d-1)
    if r==2: return z3.BitVecVal(random.choice([2,3,4,8]),w)*g(w,d-1)
    if r==3 and w>8: k=random.choice([k for k in (8,16,31,32) if k<w]); return z3.Concat(g(w-k,d-1) if w-k in(8,16,32,64,1,33) else z3.BitVecVal(0,w-k),g(k,d-1))
    if r==4 and w>8: k=random.choice([k for k in (8,16,32) if k<w]); return z3.SignExt(w-k,g(k,d-1))
    if r==5 and w>8: k=random.choice([k for k in (8,16,32) if k<w]); return z3.ZeroExt(w-k,g(k,d-1))
    if r==6 and w<64: k=random.choice([k for k in (16,32,64) if k>=w]); lo=random.randrange(k-w+1); return z3.Extract(lo+w-1,lo,g(k,d-1))
    if r==8 and w==64: return random.choice([z3.UDiv(g(w,d-1),z3.BitVecVal(random.choice([1,2,3,8]),64)),g(w,d-1)/z3.BitVecVal(random.choice([1,2,3,8]),64)])
    if r==7: return z3.If(b(d-1),g(w,d-1),g(w,d-1))
    return g(w,0)
def b(d):
    w=random.choice([8,16,32,64]); p,q=g(w,d),g(w,d)
    return random.choice([z3.ULE,z3.ULT,lambda a,c:a<=c,lambda a,c:a<c,lambda a,c:a==c,lambda a,c:a!=c])(p,q)
n=bad=nol=0
import collections; C=collections.Counter()
for it in range(1500):
    cs=[z3.simplify(b(3)) if random.random()<.6 else b(3) for _ in range(random.randrange(1,5))]
    s=z3.Solver(); s.set('timeout',3000); s.add(*cs); r=str(s.check())
    try: l=lia.solve_lia(cs,2000)
    except lia.NoLia as e: l='nolia'
    C[(r,l)]+=1
    if {r,l}=={'sat','unsat'}: print('BAD',r,l,cs); break
print(C)
