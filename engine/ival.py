"""Interval reading of real terms: bounds of variables come from the path condition, bounds of terms from interval arithmetic.
Only used to decide facts which follow (a floor with one possible value, a comparison that cannot hold); never to assume one."""
import z3, math
from fractions import Fraction
_b={}
INF=None
def _num(x):
    if z3.is_rational_value(x): return Fraction(x.numerator_as_long(),x.denominator_as_long())
    if z3.is_int_value(x): return Fraction(x.as_long())
    return None
def _isvar(x): return z3.is_app(x) and x.num_args()==0 and x.decl().kind()==z3.Z3_OP_UNINTERPRETED and (z3.is_real(x) or z3.is_int(x))
def lin(x,depth=0):
    """(variable, a, b) for a term a*variable+b, or None"""
    n=_num(x)
    if n is not None: return (None,Fraction(0),n)
    if not z3.is_app(x) or depth>8: return None
    if _isvar(x): return (x,Fraction(1),Fraction(0))
    d=x.decl().kind(); k=x.num_args()
    if d==z3.Z3_OP_UMINUS:
        r=lin(x.arg(0),depth+1); return r and (r[0],-r[1],-r[2])
    if d in(z3.Z3_OP_ADD,z3.Z3_OP_SUB):
        v=None; a=b=Fraction(0)
        for i in range(k):
            r=lin(x.arg(i),depth+1)
            if r is None: return None
            s=-1 if d==z3.Z3_OP_SUB and i else 1
            if r[0] is not None:
                if v is not None and not v.eq(r[0]): return None
                v=r[0]
            a+=s*r[1]; b+=s*r[2]
        return (v if a!=0 else None,a,b)
    if d==z3.Z3_OP_MUL:
        v=None; a=Fraction(0); b=Fraction(1)
        for i in range(k):
            r=lin(x.arg(i),depth+1)
            if r is None: return None
            if r[0] is None: a*=r[2]; b*=r[2]
            else:
                if v is not None: return None
                v=r[0]; a,b=b*r[1],b*r[2]
        return (v if a!=0 else None,a,b)
    if d==z3.Z3_OP_DIV:
        r=lin(x.arg(0),depth+1); q=lin(x.arg(1),depth+1)
        if r is None or q is None or q[0] is not None or q[2]==0: return None
        return (r[0],r[1]/q[2],r[2]/q[2])
    return None
def conj_bounds(c):
    """list of (var id, lo, lo_strict, hi, hi_strict) that the conjunct implies"""
    k=c.get_id(); r=_b.get(k)
    if r is not None: return r[1]
    out=[]; st=[(c,True)]
    while st:
        y,pos=st.pop()
        if not z3.is_app(y): continue
        d=y.decl().kind()
        if d==z3.Z3_OP_AND and pos: st.extend((y.arg(i),True) for i in range(y.num_args())); continue
        if d==z3.Z3_OP_OR and not pos: st.extend((y.arg(i),False) for i in range(y.num_args())); continue
        if d==z3.Z3_OP_NOT: st.append((y.arg(0),not pos)); continue
        if d in(z3.Z3_OP_LE,z3.Z3_OP_LT,z3.Z3_OP_GE,z3.Z3_OP_GT) or (d==z3.Z3_OP_EQ and pos):
            a,b=y.arg(0),y.arg(1)
            na,nb=_num(a),_num(b)
            FL={z3.Z3_OP_LE:z3.Z3_OP_GE,z3.Z3_OP_LT:z3.Z3_OP_GT,z3.Z3_OP_GE:z3.Z3_OP_LE,z3.Z3_OP_GT:z3.Z3_OP_LT}
            if nb is not None and _isvar(a): v,n=a,nb
            elif na is not None and _isvar(b): v,n=b,na; d=FL.get(d,d)
            else:
                if not(z3.is_arith(a) and z3.is_arith(b)): continue
                p=lin(a); q=lin(b)
                if p is None or q is None: continue
                if p[0] is not None and q[0] is not None and not p[0].eq(q[0]): continue
                v=p[0] if p[0] is not None else q[0]; co=p[1]-q[1]
                if v is None or co==0: continue
                n=(q[2]-p[2])/co
                if co<0: d=FL.get(d,d)
            if not pos: d={z3.Z3_OP_LE:z3.Z3_OP_GT,z3.Z3_OP_LT:z3.Z3_OP_GE,z3.Z3_OP_GE:z3.Z3_OP_LT,z3.Z3_OP_GT:z3.Z3_OP_LE}[d]
            i=v.get_id()
            if d==z3.Z3_OP_EQ: out.append((i,n,False,n,False))
            elif d==z3.Z3_OP_LE: out.append((i,None,False,n,False))
            elif d==z3.Z3_OP_LT: out.append((i,None,False,n,True))
            elif d==z3.Z3_OP_GE: out.append((i,n,False,None,False))
            else: out.append((i,n,True,None,False))
    _b[k]=(c,out); return out
def var_bounds(pc):
    B={}
    for c in pc:
        for i,lo,ls,hi,hs in conj_bounds(c):
            o=B.get(i)
            if o is None: B[i]=(lo,ls,hi,hs); continue
            a,as_,b,bs=o
            if lo is not None and (a is None or lo>a or (lo==a and ls)): a,as_=lo,ls
            if hi is not None and (b is None or hi<b or (hi==b and hs)): b,bs=hi,hs
            B[i]=(a,as_,b,bs)
    return B
def _add(p,q): return (None if p[0] is None or q[0] is None else p[0]+q[0],p[1] or q[1],None if p[2] is None or q[2] is None else p[2]+q[2],p[3] or q[3])
def _scale(p,n):
    if n==0: return (Fraction(0),False,Fraction(0),False)
    if n>0: return (None if p[0] is None else p[0]*n,p[1],None if p[2] is None else p[2]*n,p[3])
    return (None if p[2] is None else p[2]*n,p[3],None if p[0] is None else p[0]*n,p[1])
TOP=(None,False,None,False)
def term(x,B,memo,depth=0):
    k=x.get_id(); r=memo.get(k)
    if r is not None: return r
    r=_term(x,B,memo,depth); memo[k]=r; return r
def _term(x,B,memo,depth):
    n=_num(x)
    if n is not None: return (n,False,n,False)
    if not z3.is_app(x) or depth>60: return TOP
    d=x.decl().kind()
    if d==z3.Z3_OP_UNINTERPRETED: return B.get(x.get_id(),TOP) if x.num_args()==0 else TOP
    A=[x.arg(i) for i in range(x.num_args())]
    if d==z3.Z3_OP_ADD:
        r=term(A[0],B,memo,depth+1)
        for y in A[1:]: r=_add(r,term(y,B,memo,depth+1))
        return r
    if d==z3.Z3_OP_SUB:
        r=term(A[0],B,memo,depth+1)
        for y in A[1:]: r=_add(r,_scale(term(y,B,memo,depth+1),-1))
        return r
    if d==z3.Z3_OP_UMINUS: return _scale(term(A[0],B,memo,depth+1),-1)
    if d==z3.Z3_OP_MUL:
        r=(Fraction(1),False,Fraction(1),False)
        for y in A:
            q=term(y,B,memo,depth+1)
            if q[0] is not None and q[0]==q[2]: r=_scale(r,q[0])
            elif r[0] is not None and r[0]==r[2]: r=_scale(q,r[0])
            elif None in(r[0],r[2],q[0],q[2]): return TOP
            else:
                c=[r[0]*q[0],r[0]*q[2],r[2]*q[0],r[2]*q[2]]; r=(min(c),False,max(c),False)
        return r
    if d==z3.Z3_OP_DIV:
        q=term(A[1],B,memo,depth+1)
        if q[0] is not None and q[0]==q[2] and q[0]!=0: return _scale(term(A[0],B,memo,depth+1),1/q[0])
        return TOP
    if d==z3.Z3_OP_TO_REAL: return term(A[0],B,memo,depth+1)
    if d==z3.Z3_OP_TO_INT:
        p=term(A[0],B,memo,depth+1); lo=None if p[0] is None else Fraction(math.floor(p[0])); hi=None
        if p[2] is not None: hi=Fraction(math.ceil(p[2])-1) if p[3] else Fraction(math.floor(p[2]))
        return (lo,False,hi,False)
    if d==z3.Z3_OP_ITE:
        t=truth(A[0],B,memo,depth+1)
        if t is True: return term(A[1],B,memo,depth+1)
        if t is False: return term(A[2],B,memo,depth+1)
        p=term(A[1],B,memo,depth+1); q=term(A[2],B,memo,depth+1)
        lo=(None,False) if p[0] is None or q[0] is None else min((p[0],p[1]),(q[0],q[1])) if p[0]!=q[0] else (p[0],p[1] and q[1])
        hi=(None,False) if p[2] is None or q[2] is None else max((p[2],p[3]),(q[2],q[3])) if p[2]!=q[2] else (p[2],p[3] and q[3])
        return lo+hi
    return TOP
def truth(c,B,memo,depth=0):
    """True/False when the bounds decide the formula, None otherwise"""
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    if not z3.is_app(c) or depth>60: return None
    d=c.decl().kind()
    if d==z3.Z3_OP_NOT:
        t=truth(c.arg(0),B,memo,depth+1); return None if t is None else not t
    if d==z3.Z3_OP_AND:
        r=True
        for i in range(c.num_args()):
            t=truth(c.arg(i),B,memo,depth+1)
            if t is False: return False
            if t is None: r=None
        return r
    if d==z3.Z3_OP_OR:
        r=False
        for i in range(c.num_args()):
            t=truth(c.arg(i),B,memo,depth+1)
            if t is True: return True
            if t is None: r=None
        return r
    if d in(z3.Z3_OP_LE,z3.Z3_OP_LT,z3.Z3_OP_GE,z3.Z3_OP_GT,z3.Z3_OP_EQ):
        a,b=c.arg(0),c.arg(1)
        if not(z3.is_arith(a) and z3.is_arith(b)): return None
        if d in(z3.Z3_OP_GE,z3.Z3_OP_GT): a,b=b,a; d=z3.Z3_OP_LE if d==z3.Z3_OP_GE else z3.Z3_OP_LT
        p=term(a,B,memo,depth+1); q=term(b,B,memo,depth+1); x=_add(p,_scale(q,-1))  # a-b
        if d==z3.Z3_OP_EQ:
            if x[0] is not None and (x[0]>0 or (x[0]==0 and x[1])): return False
            if x[2] is not None and (x[2]<0 or (x[2]==0 and x[3])): return False
            if x[0] is not None and x[0]==0 and x[2]==0: return True
            return None
        if x[2] is not None and (x[2]<0 or (x[2]==0 and (d==z3.Z3_OP_LE or x[3]))): return True
        if x[0] is not None and (x[0]>0 or (x[0]==0 and (d==z3.Z3_OP_LT or x[1]))): return False
        return None
    return None
def unique_floor(x,pc):
    r=term(x,var_bounds(pc),{})
    if r[0] is None or r[2] is None: return None
    lo=math.floor(r[0]); hi=math.ceil(r[2])-1 if r[3] else math.floor(r[2])
    return lo if lo==hi else None

def trunc_split(x,pc,mx):
    """[(integer, condition)] covering every value of the truncation of x, or None when the bounds do not limit it"""
    r=term(x,var_bounds(pc),{})
    if r[0] is None or r[2] is None: return None
    lo=math.trunc(r[0]); hi=math.trunc(r[2])
    if hi-lo+1>mx: return None
    out=[]
    for k in range(lo,hi+1):
        c=z3.And(x>-1,x<1) if k==0 else z3.And(x>=k,x<k+1) if k>0 else z3.And(x>k-1,x<=k)
        out.append((k,c))
    return out
def floor_split(x,pc,mx):
    r=term(x,var_bounds(pc),{})
    if r[0] is None or r[2] is None: return None
    lo=math.floor(r[0]); hi=math.floor(r[2])
    if hi-lo+1>mx: return None
    return [(k,z3.And(x>=k,x<k+1)) for k in range(lo,hi+1)]
