"""Back end "field": equalities between rational expressions are decided by their normal form in the field of rational
functions over the leaves (inputs and applications of uninterpreted functions), reduced by the defining relations of square roots.
Sound for all leaf values for which no divisor vanishes; the divisors are returned and have to be shown (or assumed) non-zero."""
import z3
from sympy.polys.fields import field
from sympy.polys.domains import QQ
from sympy import Rational
class NotRat(Exception): pass
def _post(roots):
    seen=set(); out=[]
    for r in roots:
        st=[(r,False)]
        while st:
            t,done=st.pop()
            if done: out.append(t); continue
            if t.get_id() in seen: continue
            seen.add(t.get_id()); st.append((t,True))
            if is_op(t):
                for c in t.children(): st.append((c,False))
    return out
OPS={z3.Z3_OP_ADD,z3.Z3_OP_SUB,z3.Z3_OP_MUL,z3.Z3_OP_DIV,z3.Z3_OP_UMINUS,z3.Z3_OP_POWER}
def is_op(t):
    if not z3.is_app(t): return False
    k=t.decl().kind()
    if k==z3.Z3_OP_POWER: return z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long()==1 and 0<=t.arg(1).numerator_as_long()<=8
    return k in OPS
def bits(a,b,want):
    # (x & y & ...) != 0  or  == 1, where every operand is ite(cond,1,0)
    if z3.is_bv_value(a): a,b=b,a
    if not z3.is_bv_value(b) or b.as_long()!=want: return None
    r=[]; st=[a]
    while st:
        t=st.pop()
        if z3.is_app_of(t,z3.Z3_OP_BAND): st+=t.children()
        elif z3.is_app_of(t,z3.Z3_OP_ITE) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long()==1 and z3.is_bv_value(t.arg(2)) and t.arg(2).as_long()==0:
            x=eqs(t.arg(0))
            if x is None: return None
            r+=x
        elif z3.is_app_of(t,z3.Z3_OP_ZERO_EXT) or z3.is_app_of(t,z3.Z3_OP_CONCAT): st.append(t.children()[-1]) 
        elif z3.is_bv_value(t) and t.as_long()==1: pass
        else: return None
    return r
def eqs(goal):
    if z3.is_and(goal): 
        r=[]
        for c in goal.children():
            x=eqs(c)
            if x is None: return None
            r+=x
        return r
    if z3.is_not(goal) and z3.is_eq(goal.arg(0)) and z3.is_bv(goal.arg(0).arg(0)): return bits(goal.arg(0).arg(0),goal.arg(0).arg(1),0)
    if z3.is_distinct(goal) and goal.num_args()==2 and z3.is_bv(goal.arg(0)): return bits(goal.arg(0),goal.arg(1),0)
    if z3.is_eq(goal) and z3.is_bv(goal.arg(0)): return bits(goal.arg(0),goal.arg(1),1)
    if z3.is_eq(goal) and z3.is_real(goal.arg(0)): return [(goal.arg(0),goal.arg(1))]
    if z3.is_true(goal): return []
    return None
_C={}
def decide(goal,size=400000):
    """returns (proved?, [divisor terms])"""
    es=eqs(goal)
    if not es: return False,[]
    # sqrt leaves bring their arguments in, as relations
    roots=[x for e in es for x in e]; rel={}
    while True:
        order=_post(roots+[x for x in rel.values()]); new=False
        for t in order:
            if not is_op(t) and z3.is_app(t) and t.decl().name()=='sqrt' and t.get_id() not in rel: rel[t.get_id()]=t.arg(0); new=True
        if not new: break
    leaves=[t for t in order if not is_op(t) and not z3.is_rational_value(t)]
    if len(leaves)>60: return False,[]
    sq=[t for t in leaves if t.get_id() in rel]; 
    if not leaves: return False,[]
    # square roots first (lex: eliminated by their relations); nested ones outermost first
    def depth(t,memo={}):
        k=t.get_id()
        if k in memo: return memo[k][0]
        d=max([depth(c) for c in t.children()],default=0)+(1 if z3.is_app(t) and t.decl().name()=='sqrt' else 0)
        memo[k]=(d,t); return d
    sq.sort(key=lambda t:(-depth(t),t.get_id())); lv=sq+[t for t in leaves if t.get_id() not in rel]
    key=tuple(t.get_id() for t in lv)
    if key not in _C or len(_C[key][2])>20000:
        if len(_C)>50: _C.clear()
        K=field(['v%d'%i for i in range(len(lv))],QQ)[0]; _C[key]=(K,lv,{},[])
    K,_,val,alive=_C[key]; gens=dict(zip(key,K.gens)); R=K.ring; divs=[]; alive.append((goal,order))
    for t in order:
        i=t.get_id()
        if i in gens:
            val[i]=gens[i]; continue
        if z3.is_app_of(t,z3.Z3_OP_DIV) and not z3.is_rational_value(t.arg(1)): divs.append(t.arg(1))
        if i in val: continue
        if z3.is_rational_value(t): val[i]=K(QQ(t.numerator_as_long(),t.denominator_as_long())); continue
        ch=[val[c.get_id()] for c in t.children()]; k=t.decl().kind()
        if k==z3.Z3_OP_ADD: v=ch[0]
        if k==z3.Z3_OP_ADD:
            for c in ch[1:]: v=v+c
        elif k==z3.Z3_OP_SUB:
            v=ch[0]
            for c in ch[1:]: v=v-c
        elif k==z3.Z3_OP_MUL:
            v=ch[0]
            for c in ch[1:]: v=v*c
        elif k==z3.Z3_OP_UMINUS: v=-ch[0]
        elif k==z3.Z3_OP_POWER: v=ch[0]**t.arg(1).numerator_as_long()
        else:
            if ch[1]==0: return False,[]
            v=ch[0]/ch[1]
        if len(v.numer)+len(v.denom)>size: return False,[]
        val[i]=v
    def zero(d,k):
        # d: polynomial; square roots k.. still to be eliminated (outermost first): g^2 is replaced by its argument
        if d==0: return True
        if k==len(sq): return False
        x=val[rel[sq[k].get_id()].get_id()]; ix=k; ev={}; pw=[K(1)]
        for mono,c in d.terms():
            e=mono[ix]; m2=list(mono); m2[ix]=0
            ev.setdefault((e%2,e//2),[]).append((tuple(m2),c))
        for par in(0,1):
            acc=K(0)
            for (p,h),ts in ev.items():
                if p!=par: continue
                acc+=K(R.from_dict(dict(ts)))*x**h
            if not zero(acc.numer,k+1): return False
        return True
    for a,b in es:
        if not zero((val[a.get_id()]-val[b.get_id()]).numer,0): return False,divs
    return True,divs
