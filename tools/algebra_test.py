"""Compares the term algebra and the linear prover with direct evaluation on random terms.
algebra_test.py N [SEED]: a test of the analyser itself; no check depends on it."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "analyzer"))
from terms import *
import lin
random.seed(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
xs=[sym(f"x{i}") for i in range(3)]; nn=[sym(f"n{i}") for i in range(2)]
for n in nn: nonneg.add(n)
V=xs+nn
def ev(t,e):
    o=t.op
    if o=="i": return t.a[0]
    if o=="b": return t.a[0]
    if t in e: return e[t]
    if o=="lin": return t.a[0]+sum(t.a[i]*ev(t.a[i+1],e) for i in range(1,len(t.a),2))
    if o=="mul":
        r=1
        for x in t.a: r*=ev(x,e)
        return r
    if o=="ltz": return ev(t.a[0],e)<0
    if o=="eqz": return ev(t.a[0],e)==0
    if o=="ite": return ev(t.a[1],e) if ev(t.a[0],e) else ev(t.a[2],e)
    if o=="imax": return max(ev(x,e) for x in t.a)
    if o=="imin": return min(ev(x,e) for x in t.a)
    if o=="iabs": return abs(ev(t.a[0],e))
    if o=="idiv": 
        a,b=[ev(x,e) for x in t.a]
        if b==0: raise ZeroDivisionError
        q=abs(a)//abs(b); return q if (a<0)==(b<0) else -q
    if o=="mod":
        a,b=[ev(x,e) for x in t.a]
        if b==0: raise ZeroDivisionError
        return a % b
    if o=="bitand": return ev(t.a[0],e)&ev(t.a[1],e)
    raise Exception(o)
# structural mirror: evaluate constructors' arguments directly
def mirror(d):
    """(term, function env->value) built in parallel"""
    if d==0 or random.random()<.2:
        if random.random()<.7:
            v=random.choice(V); return v, lambda e:e[v]
        c=random.randint(-9,9); return I(c), lambda e:c
    r=random.random(); (a,fa),(b,fb)=mirror(d-1),mirror(d-1)
    if r<.35:
        p,q,c=random.randint(-5,5),random.randint(-5,5),random.randint(-9,9)
        return lincomb((p,a),(q,b),(c,ONE)), lambda e:p*fa(e)+q*fb(e)+c
    if r<.45: return mul(a,b), lambda e:fa(e)*fb(e)
    if r<.55: return imax(a,b), lambda e:max(fa(e),fb(e))
    if r<.65: return imin(a,b), lambda e:min(fa(e),fb(e))
    if r<.8:
        c,fc=mcond(d-1); return ite(c,a,b), lambda e: fa(e) if fc(e) else fb(e)
    if r<.9 and is_nonneg(a):
        k=random.randint(1,8)
        return idiv(a,I(k)), lambda e: fa(e)//k
    if is_nonneg(a):
        k=random.randint(1,8)
        return mod(a,I(k)), lambda e: fa(e)%k
    return sub(a,b), lambda e: fa(e)-fb(e)
def mcond(d):
    (a,fa),(b,fb)=mirror(max(d,0)),mirror(max(d,0)); r=random.random()
    if r<.3: return ilt(a,b), lambda e:fa(e)<fb(e)
    if r<.5: return ile(a,b), lambda e:fa(e)<=fb(e)
    if r<.7 or d<=0: return eqz(sub(a,b)), lambda e:fa(e)==fb(e)
    (c,fc),(g,fg)=mcond(d-1),mcond(d-1)
    if r<.8: return AND(c,g), lambda e:fc(e) and fg(e)
    if r<.9: return OR(c,g), lambda e:fc(e) or fg(e)
    return NOT(c), lambda e: not fc(e)
def env(): return {**{x:random.randint(-12,12) for x in xs}, **{n:random.randint(0,12) for n in nn}}
bad=0
for it in range(int(sys.argv[1])):
    t,f=mirror(4)
    for _ in range(6):
        e=env()
        if ev(t,e)!=f(e): bad+=1; print("CONS", show(t)[:200], e); break
    # substitution and restriction
    v=random.choice(xs); u,fu=mirror(2); t2=subst(t,{v:u}); c,fc=mcond(2); t3=restrict(t,c)
    for _ in range(6):
        e=env()
        if ev(t2,e)!=f({**e, v:fu(e)}): bad+=1; print("SUBST", show(t)[:300], show(v), show(u), show(t2)[:400], ev(t2,e), f({**e, v:fu(e)}), e); break
        if fc(e) and ev(t3,e)!=f(e): bad+=1; print("RESTRICT", show(t)[:200], show(c), e); break
    # prover: entails(conds, goal)
    cs=[mcond(1) for _ in range(random.randint(0,3))]; g,fg=mirror(2)
    if lin.entails(tuple(c for c,_ in cs), g):
        for _ in range(150):
            e=env()
            if all(fc(e) for _,fc in cs) and fg(e)<0: bad+=1; print("PROVER", show(g)[:100],[show(c)[:100] for c,_ in cs], e); break
    if bad>5: break
print("bad",bad)
