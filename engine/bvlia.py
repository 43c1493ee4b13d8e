"""Exact translation of bit-vector terms over integers (real-arithmetic obligations that mix rounding to integer
with machine integers): every bit-vector of width w becomes the integer in 0..2^w-1 that it denotes.
Unsupported operations raise NotImplementedError: the caller then keeps the original obligation."""
import z3
class T:
    def __init__(s): s.m={}; s.side=[]; s.vars={}; s.seen=False; s.keep=[]
    def lit(s,w): return z3.IntVal(1<<w)
    def bv(s,t):
        i=t.get_id()
        if i in s.m: return s.m[i]
        s.keep.append(t)
        r=s.bv_(t); s.m[i]=r; return r
    def mod(s,x,w):
        if z3.is_int_value(x): return z3.IntVal(x.as_long()%(1<<w))
        return x%(1<<w)
    def sg(s,x,w):
        if z3.is_int_value(x):
            v=x.as_long(); return z3.IntVal(v-(1<<w) if v>>(w-1) else v)
        return z3.If(x>=(1<<(w-1)),x-(1<<w),x)
    def leaves(s,t):
        """[(condition, value)] of a bitwise combination of if-then-else trees over constants (first match wins)"""
        w=t.size(); k=t.decl().kind(); c=t.children(); M=(1<<w)-1
        if z3.is_bv_value(t): return [(z3.BoolVal(True),t.as_long())]
        if k==z3.Z3_OP_ITE:
            a,b=s.leaves(c[1]),s.leaves(c[2])
            if a is None or b is None or len(a)+len(b)>16: return None
            q=s.ex(c[0]); return [(z3.And(q,x),v) for x,v in a]+[(z3.And(z3.Not(q),x),v) for x,v in b]
        if k==z3.Z3_OP_BNOT:
            a=s.leaves(c[0]); return a and [(x,v^M) for x,v in a]
        if k in(z3.Z3_OP_CONCAT,z3.Z3_OP_ZERO_EXT):
            if k==z3.Z3_OP_CONCAT and not all(z3.is_bv_value(x) and x.as_long()==0 for x in c[:-1]): return None
            return s.leaves(c[-1])
        if k in(z3.Z3_OP_BOR,z3.Z3_OP_BAND,z3.Z3_OP_BXOR):
            r=None
            for y in c:
                a=s.leaves(y)
                if a is None: return None
                if r is None: r=a; continue
                f={z3.Z3_OP_BOR:lambda p,q:p|q,z3.Z3_OP_BAND:lambda p,q:p&q,z3.Z3_OP_BXOR:lambda p,q:p^q}[k]
                r=[(z3.And(x,y2),f(v,v2)) for x,v in r for y2,v2 in a]
                if len(r)>64: return None
            return r
        return None
    def bv_(s,t):
        w=t.size(); k=t.decl().kind(); c=t.children()
        if z3.is_bv_value(t): return z3.IntVal(t.as_long())
        if k==z3.Z3_OP_UNINTERPRETED and not c:
            v=z3.Int('%s!i%d'%(t.decl().name(),w)); s.side.append(z3.And(v>=0,v<(1<<w))); return v
        if k==z3.Z3_OP_INT2BV:
            s.seen=True; x=s.ex(c[0]); return s.mod(x,w)
        if k==z3.Z3_OP_BADD:
            x=s.bv(c[0])
            for y in c[1:]: x=x+s.bv(y)
            return s.mod(x,w)
        if k==z3.Z3_OP_BSUB: return s.mod(s.bv(c[0])-s.bv(c[1]),w)
        if k==z3.Z3_OP_BNEG: return s.mod(-s.bv(c[0]),w)
        if k==z3.Z3_OP_BNOT: return (1<<w)-1-s.bv(c[0])
        if k==z3.Z3_OP_BMUL:
            f=1; x=None
            for y in c:
                y=s.bv(y)
                if z3.is_int_value(y): f=f*y.as_long()%(1<<w)
                elif x is None: x=y
                else: raise NotImplementedError('mul')
            if f>>(w-1): f-=1<<w
            return z3.IntVal(f%(1<<w)) if x is None else s.mod(f*x,w)
        if k==z3.Z3_OP_EXTRACT:
            hi,lo=t.params(); x=s.bv(c[0])
            if lo: x=x/(1<<lo)
            return s.mod(x,hi-lo+1) if hi<c[0].size()-1 else x
        if k==z3.Z3_OP_CONCAT:
            x=s.bv(c[0])
            for y in c[1:]: x=x*(1<<y.size())+s.bv(y)
            return x
        if k==z3.Z3_OP_ZERO_EXT: return s.bv(c[0])
        if k==z3.Z3_OP_SIGN_EXT: return s.mod(s.sg(s.bv(c[0]),c[0].size()),w)
        if k==z3.Z3_OP_ITE: return z3.If(s.ex(c[0]),s.bv(c[1]),s.bv(c[2]))
        if k in(z3.Z3_OP_BSHL,z3.Z3_OP_BLSHR,z3.Z3_OP_BASHR) and z3.is_bv_value(c[1]):
            n=c[1].as_long(); x=s.bv(c[0])
            if n>=w: raise NotImplementedError('shift')
            if k==z3.Z3_OP_BSHL: return s.mod(x*(1<<n),w)
            if k==z3.Z3_OP_BLSHR: return x/(1<<n)
            return s.mod(s.sg(x,w)/(1<<n),w)
        if k in(z3.Z3_OP_BOR,z3.Z3_OP_BAND,z3.Z3_OP_BXOR):
            l=s.leaves(t)
            if l is not None:
                r=z3.IntVal(l[-1][1])
                for cd,v in reversed(l[:-1]): r=z3.If(cd,z3.IntVal(v),r)
                return r
        if k==z3.Z3_OP_BAND and len(c)==2:
            for a,b in((c[0],c[1]),(c[1],c[0])):
                if z3.is_bv_value(a):
                    m=a.as_long()
                    if m&(m+1)==0: return s.mod(s.bv(b),m.bit_length())
        if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) and z3.is_bv_value(c[1]) and c[1].as_long(): return s.bv(c[0])/c[1].as_long()
        if k in(z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I) and z3.is_bv_value(c[1]) and c[1].as_long(): return s.bv(c[0])%c[1].as_long()
        if k in(z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I,z3.Z3_OP_BSREM,z3.Z3_OP_BSREM_I) and z3.is_bv_value(c[1]):
            d=c[1].as_long()
            if 0<d<(1<<(w-1)):
                x=s.sg(s.bv(c[0]),w); q=z3.If(x>=0,x/d,-((-x)/d))
                return s.mod(q if k in(z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I) else x-q*d,w)
        raise NotImplementedError(str(t.decl()))
    def ex(s,t):
        i=t.get_id()
        if i in s.m: return s.m[i]
        s.keep.append(t)
        r=s.ex_(t); s.m[i]=r; return r
    def ex_(s,t):
        if z3.is_bv(t): raise NotImplementedError('bv here')
        k=t.decl().kind() if z3.is_app(t) else None
        if k is None: raise NotImplementedError('quantifier')
        c=t.children()
        if k==z3.Z3_OP_BV2INT: s.seen=True; return s.bv(c[0])
        if c and any(z3.is_bv(x) for x in c):
            if k==z3.Z3_OP_EQ: return s.bv(c[0])==s.bv(c[1])
            if k==z3.Z3_OP_DISTINCT and len(c)==2: return s.bv(c[0])!=s.bv(c[1])
            a,b=(s.bv(c[0]),s.bv(c[1])) if len(c)==2 else (None,None); w=c[0].size()
            if k==z3.Z3_OP_ULEQ: return a<=b
            if k==z3.Z3_OP_ULT: return a<b
            if k==z3.Z3_OP_UGEQ: return a>=b
            if k==z3.Z3_OP_UGT: return a>b
            a,b=s.sg(a,w),s.sg(b,w)
            if k==z3.Z3_OP_SLEQ: return a<=b
            if k==z3.Z3_OP_SLT: return a<b
            if k==z3.Z3_OP_SGEQ: return a>=b
            if k==z3.Z3_OP_SGT: return a>b
            raise NotImplementedError(str(t.decl()))
        if not c: return t
        n=[s.ex(x) for x in c]
        if all(x.get_id()==y.get_id() for x,y in zip(n,c)): return t
        if k==z3.Z3_OP_AND: return z3.And(*n)
        if k==z3.Z3_OP_OR: return z3.Or(*n)
        if k==z3.Z3_OP_NOT: return z3.Not(n[0])
        if k==z3.Z3_OP_ITE: return z3.If(*n)
        return t.decl()(*n)
def translate(fs):
    """list of formulas -> equisatisfiable list without bit-vectors, or None if there is nothing to gain"""
    t=T(); out=[]
    for f in fs:
        try: out.append(t.ex(z3.simplify(f)))
        except NotImplementedError:
            # dropping a hypothesis is sound for 'unsat'; the caller passes the negated goal last
            if f is fs[-1]:
                return None
    if not t.seen: return None
    return out+t.side
