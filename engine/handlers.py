"""Models of intrinsics, libc/libm/libstdc++ externals and the vp_* specification interface."""
import re, math
from execu import *

EXACT={}; REGEX=[]
def H(*names):
    def d(f):
        for n in names: EXACT[n]=f
        return f
    return d
def HR(pat):
    def d(f): REGEX.append((re.compile(pat),f)); return f
    return d

def nop(e,st,a,I,fn,t): return None
HR(r'^llvm\.(lifetime|dbg|donothing|experimental\.noalias|invariant|prefetch|var\.annotation|stackrestore)')(nop)
H('llvm.assume')(nop)
H('__cxa_atexit','atexit','_ZdlPv_dummy','__cxa_guard_abort','_ZNSt8ios_base4InitC1Ev','_ZNSt8ios_base4InitD1Ev')(lambda e,st,a,I,fn,t: 0 if fn.ret.kind!='void' else None)
@HR(r'^llvm\.stacksave')
def _(e,st,a,I,fn,t): return NULL
@HR(r'^llvm\.(launder|strip)\.invariant')
def _(e,st,a,I,fn,t): return a[0]
@HR(r'^llvm\.(expect|ssa\.copy)')
def _(e,st,a,I,fn,t): return a[0]
@HR(r'^llvm\.is\.constant')
def _(e,st,a,I,fn,t): return False
@HR(r'^llvm\.objectsize')
def _(e,st,a,I,fn,t): return mask(fn.ret.bits)
@HR(r'^llvm\.(memcpy|memmove)')
def _(e,st,a,I,fn,t): e.memcpy(st,a[0],a[1],a[2],I)
@HR(r'^llvm\.memset')
def _(e,st,a,I,fn,t): e.memset(st,a[0],a[1],a[2],I)
@H('memcpy','memmove')
def _(e,st,a,I,fn,t): e.memcpy(st,a[0],a[1],a[2],I); return a[0]
@H('memset')
def _(e,st,a,I,fn,t): e.memset(st,a[0],e.trunc(a[1],32,8),a[2],I); return a[0]
@H('llvm.trap','abort','_ZSt9terminatev','__assert_fail','__cxa_pure_virtual','exit','__clang_call_terminate')
def _(e,st,a,I,fn,t): e.oblige(st,False,'call to %s unreachable'%fn.name,I,'memory'); return []
@H('llvm.eh.typeid.for','llvm.eh.typeid.for.p0')
def _(e,st,a,I,fn,t):
    if a[0].o==0: return e.tid('*')
    for n,i in e.gobj.items():
        if i==a[0].o: return e.tid(n)
    raise Unsupported('typeid')
@H('__cxa_allocate_exception')
def _(e,st,a,I,fn,t): return Ptr(e.new_obj(st,a[0],'exception').id,0)
@H('__cxa_free_exception')
def _(e,st,a,I,fn,t): st.mem.pop(a[0].o,None)
@H('__cxa_throw')
def _(e,st,a,I,fn,t):
    tn=None
    for n,i in e.gobj.items():
        if i==a[1].o: tn=n
    return e.throw(st,tn,a[0])
@H('__cxa_begin_catch')
def _(e,st,a,I,fn,t):
    st.ghost['caught']=st.ghost.get('caught',())+(a[0].o,)
    return a[0]
@H('__cxa_get_exception_ptr')
def _(e,st,a,I,fn,t): return a[0]
@H('__cxa_end_catch')
def _(e,st,a,I,fn,t):
    c=st.ghost.get('caught',())
    c=c[:-1]
    if c: st.ghost['caught']=c
    else: st.ghost.pop('caught',None)
@H('__cxa_rethrow')
def _(e,st,a,I,fn,t):
    o=st.ghost['caught'][-1]
    return [('exc',(Ptr(o,0),st.ghost.get(('exct',o))),st)]
@H('__cxa_guard_acquire')
def _(e,st,a,I,fn,t):
    v=e.read_raw(st,a[0].o,a[0].off,1)
    return 1 if v==0 else 0
@H('__cxa_guard_release')
def _(e,st,a,I,fn,t): e.put(e.wobj(st,a[0].o),a[0].off,1,1)
THROW={'length_error':'length_error','logic_error':'logic_error','out_of_range_fmt':'out_of_range','out_of_range':'out_of_range','bad_alloc':'bad_alloc',
 'invalid_argument':'invalid_argument','bad_cast':'bad_cast','bad_array_new_length':'bad_array_new_length','runtime_error':'runtime_error','bad_function_call':'bad_function_call','domain_error':'domain_error','range_error':'range_error'}
@HR(r'^_ZSt\d+__throw_')
def _(e,st,a,I,fn,t):
    m=re.match(r'^_ZSt(\d+)(.*)$',fn.name); n=m.group(2)[:int(m.group(1))][len('__throw_'):]
    n=THROW[n]
    return e.throw(st,'_ZTISt%d%s'%(len(n),n))
@HR(r'^_ZNSt(13runtime_error|11logic_error|12length_error|12out_of_range|16invalid_argument|12domain_error|9exception|9bad_alloc|8bad_cast|11range_error|14overflow_error)[CDa]')
def _(e,st,a,I,fn,t): return a[0] if fn.ret.kind=='ptr' else None
@HR(r'^_ZNKSt(13runtime_error|11logic_error|9exception)4what')
def _(e,st,a,I,fn,t):
    o=e.new_obj(st,1,'what','zero'); return Ptr(o.id,0)
@H('_Znwm','_Znam','malloc','_ZnwmRKSt9nothrow_t','_ZnamRKSt9nothrow_t','_ZnwmSt11align_val_t')
def _(e,st,a,I,fn,t):
    n=e.tobv(a[0],64)
    if is_sym(n):
        n=z3.simplify(n)
        if z3.is_bv_value(n): n=n.as_long()
    return Ptr(e.new_obj(st,n,'heap@'+e.where(I)).id,0)
@H('calloc')
def _(e,st,a,I,fn,t):
    return Ptr(e.new_obj(st,a[0]*a[1],'heap','zero').id,0)
@H('realloc')
def _(e,st,a,I,fn,t):
    o=e.new_obj(st,a[1],'heap'); p=a[0]
    if p.o:
        old=st.mem[p.o]; e.memcpy(st,Ptr(o.id,0),p,min(old.size,a[1]),I); st.mem.pop(p.o)
    return Ptr(o.id,0)
@H('_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm','free','_ZdlPvmSt11align_val_t','_ZdlPvSt11align_val_t')
def _(e,st,a,I,fn,t):
    p=e.toptr(st,a[0])
    if isinstance(p,PtrU):
        return    # conditional free: object kept alive (over-approximates liveness)
    if p is UNDEF or p.o==0: 
        if p is UNDEF or p.off==0: return
    if p.o not in st.mem or p.off!=0: e.oblige(st,False,'invalid or double free',I,'memory')
    if st.mem[p.o].kind in('stack','global'): e.oblige(st,False,'free of non-heap object',I,'memory')
    st.mem.pop(p.o)
# ---- strings
def cbyte(e,st,p,i,I): return e.load(st,e.ptr_add(p,i),e.int_type(8),I)
@H('strlen')
def _(e,st,a,I,fn,t):
    p=e.toptr(st,a[0]); i=0; conds=[]
    if isinstance(p,PtrU):
        r=None
        for c,q in reversed(p.alts):
            v=EXACT['strlen'](e,st,[q],I,fn,t)
            r=v if r is None else e.ite_ty(c,v,r,8)
        return r
    # symbolic contents: first zero byte
    stops=[]
    while True:
        if stops:
            f,_=e.feasible(st,zand(*[znot(c) for c,_ in stops]))
            if not f: break
            s2=st.fork(); s2.pc=st.pc+tuple(znot(c) for c,_ in stops); s2.model=None
            try: b=cbyte(e,s2,p,i,I)
            except PathDead:
                e.assume(st,zor(*[c for c,_ in stops])); break
            for k,v in s2.mem.items():
                if k not in st.mem: st.mem[k]=v
        else: b=cbyte(e,st,p,i,I)
        if isinstance(b,int):
            if b==0: stops.append((True,i)); break
        else: stops.append((e.tobv(b,8)==z3.BitVecVal(0,8),i))
        i+=1
        if i>65536: raise Unsupported('strlen')
    r=stops[-1][1]
    for c,n in reversed(stops[:-1]): r=e.ite_ty(c,n,r,8)
    return r
def cmpbytes(e,st,p,q,n,I,stopnul):
    """lexicographic compare, returns i32"""
    res=[]  # (cond differs here or ended, value)
    live=True
    i=0
    while n is None or i<n:
        s2=st.fork(); s2.pc=st.pc+(() if live is True else (live,)); s2.model=None
        if live is not True:
            f,_=e.feasible(st,live)
            if not f: break
        try:
            a=e.tobv(cbyte(e,s2,p,i,I),8); b=e.tobv(cbyte(e,s2,q,i,I),8)
        except PathDead:
            if live is True: raise
            e.assume(st,znot(live)); break
        if isinstance(a,int) and isinstance(b,int):
            if a!=b: res.append((live,(a-b)&mask(32))); live=False; break
            if stopnul and a==0: res.append((live,0)); live=False; break
        else:
            A=bvv(a,8);B=bvv(b,8)
            ne=A!=B
            res.append((zand(live,ne),z3.ZeroExt(24,A)-z3.ZeroExt(24,B)))
            live=zand(live,A==B)
            if stopnul:
                z=A==z3.BitVecVal(0,8)
                res.append((zand(live,z),0)); live=zand(live,znot(z))
        i+=1
        if i>4096: raise Unsupported('compare too long')
    r=0
    for c,v in reversed(res): r=e.ite_ty(c,v,r,4)
    return r
def unionarg(f):
    """distribute a handler over unions in its first two pointer arguments"""
    def g(e,st,a,I,fn,t):
        for k in (0,1):
            if k<len(a) and t[k].kind=='ptr':
                p=e.toptr(st,a[k])
                if isinstance(p,PtrU):
                    r=None
                    for c,q in reversed(p.alts):
                        ok,_=e.feasible(st,c)
                        if not ok: continue
                        b=list(a); b[k]=q
                        s2=st.fork(); s2.pc=st.pc+((c,) if c is not True else ()); s2.model=None
                        v=g(e,s2,b,I,fn,t)
                        r=v if r is None else e.ite_val(c,v,r,fn.ret)
                    return r
        return f(e,st,a,I,fn,t)
    return g
@H('memcmp','bcmp')
@unionarg
def _(e,st,a,I,fn,t):
    n=e.tobv(a[2],64)
    if is_sym(n):
        n=z3.simplify(n)
        if z3.is_bv_value(n): n=n.as_long()
        else: return memcmp_sym(e,st,a,n,I)
    return cmpbytes(e,st,e.toptr(st,a[0]),e.toptr(st,a[1]),n,I,False)
def memcmp_sym(e,st,a,n,I):
    # bounded by feasible maximum
    l,h=0,4096
    while l<h:
        m=(l+h+1)//2
        f,_=e.feasible(st,z3.UGE(n,z3.BitVecVal(m,64)))
        if f: l=m
        else: h=m-1
    if l>=4096: raise Unsupported('memcmp symbolic length')
    p=e.toptr(st,a[0]); q=e.toptr(st,a[1]); res=[]; live=True
    for i in range(l):
        live=zand(live,z3.UGT(n,z3.BitVecVal(i,64)))
        f,_=e.feasible(st,live)
        if not f: break
        s2=st.fork(); s2.pc=st.pc+(live,); s2.model=None
        try: x=e.tobv(cbyte(e,s2,p,i,I),8); y=e.tobv(cbyte(e,s2,q,i,I),8)
        except PathDead: e.assume(st,znot(live)); break
        A=bvv(x,8);B=bvv(y,8)
        if isinstance(x,int) and isinstance(y,int):
            if x!=y: res.append((live,(x-y)&mask(32))); break
            continue
        res.append((zand(live,A!=B),z3.ZeroExt(24,A)-z3.ZeroExt(24,B))); live=zand(live,A==B)
    r=0
    for c,v in reversed(res): r=e.ite_ty(c,v,r,4)
    return r
@H('strcmp')
@unionarg
def _(e,st,a,I,fn,t): return cmpbytes(e,st,e.toptr(st,a[0]),e.toptr(st,a[1]),None,I,True)
@H('strncmp')
@unionarg
def _(e,st,a,I,fn,t): return cmpbytes(e,st,e.toptr(st,a[0]),e.toptr(st,a[1]),a[2],I,True)
@H('memchr')
@unionarg
def _(e,st,a,I,fn,t):
    p=e.toptr(st,a[0]); c=e.trunc(a[1],32,8); n=e.tobv(a[2],64)
    if not isinstance(n,int): raise Unsupported('memchr symbolic length')
    alts=[]; live=True
    for i in range(n):
        b=cbyte(e,st,p,i,I)
        eq=e.icmp(st,'eq',b,c,e.int_type(8))
        if eq is False: continue
        alts.append((zand(live,eq),e.ptr_add(p,i)))
        live=zand(live,znot(eq))
        if live is False: break
    r=NULL
    for cc,v in reversed(alts): r=e.ite(cc,v,r)
    return r
@H('strchr')
@unionarg
def _(e,st,a,I,fn,t):
    p=e.toptr(st,a[0]); c=e.trunc(a[1],32,8); alts=[]; live=True; i=0
    while True:
        b=cbyte(e,st,p,i,I)
        if not isinstance(b,int): raise Unsupported('strchr symbolic')
        eq=e.icmp(st,'eq',b,c,e.int_type(8))
        if eq is not False:
            alts.append((zand(live,eq),e.ptr_add(p,i))); live=zand(live,znot(eq))
        if b==0 or live is False: break
        i+=1
    r=NULL
    for cc,v in reversed(alts): r=e.ite(cc,v,r)
    return r
@H('strcpy')
def _(e,st,a,I,fn,t):
    n=EXACT['strlen'](e,st,[a[1]],I,fn,t); e.memcpy(st,a[0],a[1],n+1,I); return a[0]
def cstr_concrete(e,st,p,I,lim=256):
    out=[]
    while len(out)<lim:
        b=cbyte(e,st,p,len(out),I)
        if not isinstance(b,int): raise Unsupported('number conversion of symbolic text')
        if b==0: return bytes(out)
        out.append(b)
    raise Unsupported('long text')
# libc contract: strtol/strtoul/atoi base 10 and strtod on text known at proof time
@H('strtol','__isoc23_strtol','strtoll','__isoc23_strtoll','strtoul','__isoc23_strtoul')
def _(e,st,a,I,fn,t):
    import re
    p=e.toptr(st,a[0]); s=cstr_concrete(e,st,p,I)
    if a[2]!=10: raise Unsupported('strtol base')
    m=re.match(rb'[ \t\n\v\f\r]*([+-]?[0-9]+)',s); n=m.end() if m else 0; v=int(m.group(1)) if m else 0
    v=max(-2**63,min(2**63-1,v))
    ep=e.toptr(st,a[1])
    if ep.o: e.store(st,ep,e.ptr_add(p,n),PTRT(e),I)
    return v
@H('atoi')
def _(e,st,a,I,fn,t):
    import re
    s=cstr_concrete(e,st,e.toptr(st,a[0]),I); m=re.match(rb'[ \t\n\v\f\r]*([+-]?[0-9]+)',s)
    return max(-2**31,min(2**31-1,int(m.group(1)))) if m else 0
# ctype (C locale)
def ctype(name,pred):
    @H(name)
    def _(e,st,a,I,fn,t):
        c=e.tobv(a[0],32)
        if isinstance(c,int): return 1 if 0<=c<256 and pred(chr(c)) and c<128 else 0
        vs=[i for i in range(128) if pred(chr(i))]
        # ranges
        out=[]; s=p=vs[0]
        for v in vs[1:]+[None]:
            if v is not None and v==p+1: p=v; continue
            out.append(z3.And(z3.UGE(c,z3.BitVecVal(s,32)),z3.ULE(c,z3.BitVecVal(p,32))))
            if v is not None: s=p=v
        return z3.If(zor(*out),z3.BitVecVal(1,32),z3.BitVecVal(0,32))
ctype('isdigit',lambda c:'0'<=c<='9'); ctype('isspace',lambda c:c in ' \t\n\v\f\r'); ctype('isalpha',lambda c:c.isalpha() and c<'\x80')
ctype('isalnum',lambda c:c.isalnum() and c<'\x80'); ctype('isupper',lambda c:'A'<=c<='Z'); ctype('islower',lambda c:'a'<=c<='z')
ctype('isprint',lambda c:' '<=c<='~'); ctype('isxdigit',lambda c:c in '0123456789abcdefABCDEF'); ctype('ispunct',lambda c: '!'<=c<='~' and not c.isalnum())
@H('tolower')
def _(e,st,a,I,fn,t):
    c=e.tobv(a[0],32)
    if isinstance(c,int): return c+32 if 65<=c<=90 else c
    return z3.If(z3.And(z3.UGE(c,65),z3.ULE(c,90)),c+32,c)
@H('toupper')
def _(e,st,a,I,fn,t):
    c=e.tobv(a[0],32)
    if isinstance(c,int): return c-32 if 97<=c<=122 else c
    return z3.If(z3.And(z3.UGE(c,97),z3.ULE(c,122)),c-32,c)
# ---- integer intrinsics
@HR(r'^llvm\.(umin|umax|smin|smax)\.')
def _(e,st,a,I,fn,t):
    k=fn.name.split('.')[1]; p={'umin':'ult','umax':'ugt','smin':'slt','smax':'sgt'}[k]
    return e.ite_val(e.icmp(st,p,a[0],a[1],fn.ret),a[0],a[1],fn.ret)
@HR(r'^llvm\.abs\.')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits; return e.ite_val(e.icmp(st,'slt',a[0],0,fn.ret),e.ibin('sub',0,a[0],b),a[0],fn.ret)
@H('abs','labs')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits; return e.ite_val(e.icmp(st,'slt',a[0],0,fn.ret),e.ibin('sub',0,a[0],b),a[0],fn.ret)
@HR(r'^llvm\.ctpop\.')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits; v=e.tobv(a[0],b)
    if isinstance(v,int): return bin(v).count('1')
    r=z3.BitVecVal(0,b)
    for i in range(b): r=r+z3.ZeroExt(b-1,z3.Extract(i,i,v))
    return r
@HR(r'^llvm\.ctlz\.')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits; v=e.tobv(a[0],b)
    if isinstance(v,int): return b-v.bit_length()
    r=z3.BitVecVal(b,b)
    for i in range(b): r=z3.If(z3.Extract(i,i,v)==1,z3.BitVecVal(b-1-i,b),r)
    return r
@HR(r'^llvm\.cttz\.')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits; v=e.tobv(a[0],b)
    if isinstance(v,int): return b if v==0 else (v&-v).bit_length()-1
    r=z3.BitVecVal(b,b)
    for i in reversed(range(b)): r=z3.If(z3.Extract(i,i,v)==1,z3.BitVecVal(i,b),r)
    return r
@HR(r'^llvm\.bswap\.')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits; v=e.tobv(a[0],b)
    if isinstance(v,int): return int.from_bytes(v.to_bytes(b//8,'little'),'big')
    return z3.Concat(*[z3.Extract(8*i+7,8*i,v) for i in range(b//8)])
@HR(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.')
def _(e,st,a,I,fn,t):
    k=fn.name.split('.')[1]; b=t[0].bits; s=k[0]=='s'; op=k[1:]
    x=e.tobv(a[0],b); y=e.tobv(a[1],b)
    if isinstance(x,int) and isinstance(y,int):
        X,Y=(sgn(x,b),sgn(y,b)) if s else (x,y)
        r={'add':X+Y,'sub':X-Y,'mul':X*Y}[op]
        lo,hi=(-(1<<(b-1)),(1<<(b-1))-1) if s else (0,mask(b))
        return (r&mask(b),not(lo<=r<=hi))
    X,Y=bvv(x,b),bvv(y,b)
    E=z3.SignExt if s else z3.ZeroExt
    n=b if op=='mul' else 2
    W=E(n,X); V=E(n,Y); r={'add':W+V,'sub':W-V,'mul':W*V}[op]
    lo=z3.Extract(b-1,0,r)
    return (z3.simplify(lo),z3.simplify(E(n,lo)!=r))
@HR(r'^llvm\.usub\.sat')
def _(e,st,a,I,fn,t):
    return e.ite_val(e.icmp(st,'ult',a[0],a[1],fn.ret),0,e.ibin('sub',a[0],a[1],fn.ret.bits),fn.ret)
@HR(r'^llvm\.uadd\.sat')
def _(e,st,a,I,fn,t):
    r=e.ibin('add',a[0],a[1],fn.ret.bits)
    return e.ite_val(e.icmp(st,'ult',r,a[0],fn.ret),mask(fn.ret.bits),r,fn.ret)
@HR(r'^llvm\.fsh[lr]\.')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits; l=fn.name[8]=='l'; s=e.tobv(a[2],b)
    if not isinstance(s,int): raise Unsupported('fsh')
    s%=b
    if s==0: return a[0] if l else a[1]
    if not l: s=b-s
    return e.ibin('or',e.ibin('shl',a[0],s,b),e.ibin('lshr',a[1],b-s,b),b)
# ---- floating point
def fbits(fn): return fn.ret.bits
def funary(names,conc,fpf,realf):
    def h(e,st,a,I,fn,t):
        b=fn.ret.bits; x=e.tofp(a[0],b)
        if isinstance(x,float):
            try: r=conc(x)
            except (ValueError,OverflowError): r=None
            if r is not None: return f32(r) if b==32 else float(r)
            x=fpv(x,b)
        if e.mode=='real': return realf(e,st,x,b)
        return fpf(e,st,x,b)
    for n in names:
        for s in ('','f','l'): 
            if s!='l': EXACT[n+s]=h
        REGEX.append((re.compile(r'^llvm\.%s\.f'%n),h))
def _cfloor(x):
    if x!=x or abs(x)==math.inf: return x
    return math.copysign(float(math.floor(x)),x) if x>=1 or x<0 else (x if x==0 else 0.0)
def _cceil(x):
    if x!=x or abs(x)==math.inf: return x
    r=float(math.ceil(x)); return math.copysign(r,x)
def _ctrunc(x):
    if x!=x or abs(x)==math.inf: return x
    return math.copysign(float(math.trunc(x)),x)
def _cround(x):
    if x!=x or abs(x)==math.inf: return x
    t=math.trunc(x)
    if abs(x-t)>=0.5: t+=1 if x>0 else -1
    return math.copysign(float(t),x)
def _crint(x):
    if x!=x or abs(x)==math.inf: return x
    return math.copysign(float(round(x)),x)
import ival
def fri(rm): return lambda e,st,x,b: z3.fpRoundToIntegral(rm,x)
def rfloor(e,st,x,b):
    if isinstance(x,Fraction): return Fraction(x.numerator//x.denominator)
    u=ival.unique_floor(x,st.pc)
    return z3.ToReal(z3.ToInt(x)) if u is None else Fraction(u)
def rceil(e,st,x,b):
    if isinstance(x,Fraction): return Fraction(-((-x.numerator)//x.denominator))
    u=ival.unique_floor(-x,st.pc)
    return -z3.ToReal(z3.ToInt(-x)) if u is None else Fraction(-u)
def rabs(e,st,x,b):
    if isinstance(x,Fraction): return abs(x)
    return z3.If(x>=0,x,-x)
def split_floor(neg,base):
    def h(e,st,x,b):
        if not e.splitint or isinstance(x,Fraction): return base(e,st,x,b)
        y=-x if neg else x; sp=ival.floor_split(y,st.pc,e.splitint)
        if sp is None or len(sp)==1: return base(e,st,x,b)
        outs=[]
        for k,c in sp:
            f,m=e.feasible(st,c)
            if f:
                s2=st.fork(); s2.pc=st.pc+(c,); s2.model=m; outs.append(('ret',Fraction(-k if neg else k),s2))
        return outs
    return h
funary(['floor'],_cfloor,fri(z3.RTN()),split_floor(False,rfloor))
funary(['ceil'],_cceil,fri(z3.RTP()),split_floor(True,rceil))
funary(['trunc'],_ctrunc,fri(z3.RTZ()),lambda e,st,x,b: e.ite(e.fcmp('oge',x,Fraction(0),b),rfloor(e,st,x,b),rceil(e,st,x,b)))
funary(['round'],_cround,fri(z3.RNA()),lambda e,st,x,b: rfloor(e,st,e.fbin('fadd',x,Fraction(1,2),b),b))
funary(['rint','nearbyint'],_crint,fri(z3.RNE()),lambda e,st,x,b: rfloor(e,st,e.fbin('fadd',x,Fraction(1,2),b),b))
funary(['fabs'],abs,lambda e,st,x,b: z3.fpAbs(x),rabs)
def rsqrt(e,st,x,b):
    if isinstance(x,Fraction):
        n=math.isqrt(x.numerator) if x>=0 else 0; d=math.isqrt(x.denominator)
        if x>=0 and n*n==x.numerator and d*d==x.denominator: return Fraction(n,d)
    X=e.zreal(x); f=e.getuf('sqrt',z3.RealSort(),z3.RealSort()); r=f(X)
    e.add_axiom(z3.Implies(X>=0,z3.And(r>=0,r*r==X)),('sqrtax',X.get_id()))
    e.keep=getattr(e,'keep',[]); e.keep.append(X)
    return r
funary(['sqrt'],lambda x: math.sqrt(x) if x>=0 else math.nan,lambda e,st,x,b: z3.fpSqrt(RNE,x),rsqrt)
EXACT.pop('roundl',None)
_lm=None
def libm(name,b,xs):
    global _lm
    import ctypes
    if _lm is None: _lm=ctypes.CDLL('libm.so.6')
    f=getattr(_lm,name+('f' if b==32 else '')); ct=ctypes.c_float if b==32 else ctypes.c_double
    f.restype=ct; f.argtypes=[ct]*len(xs)
    return f(*xs)
REAL_PTS={('exp',0):1,('log',1):0,('log10',1):0,('asin',0):0,('acos',1):0,('atan',0):0,('tan',0):0,('sin',0):0,('cos',0):1,('exp2',0):1,('log2',1):0,('sinh',0):0,('cosh',0):1,('tanh',0):0,('cbrt',0):0,('cbrt',1):1}
def real_exact(e,name,xs):
    if len(xs)==1 and isinstance(xs[0],Fraction) and (name,xs[0]) in REAL_PTS: return Fraction(REAL_PTS[(name,xs[0])])
    if name=='pow' and isinstance(xs[1],Fraction) and xs[1].denominator==1 and abs(xs[1])<=60:
        n=int(xs[1])
        if isinstance(xs[0],Fraction): return xs[0]**n if xs[0]!=0 or n>=0 else None
        if 0<=n<=8:
            r=Fraction(1)
            for _ in range(n): r=e.fbin('fmul',r,xs[0],64)
            return r
    if name=='pow' and isinstance(xs[0],Fraction) and xs[0]==1: return Fraction(1)
    return None
def ufun(name,conc=None,axioms=None):
    def h(e,st,a,I,fn,t):
        b=fn.ret.bits
        xs=[e.tofp(x,b) for x in a]
        if all(isinstance(x,float) for x in xs) and xs: return libm(name,b,xs)
        if e.mode=='real':
            r=real_exact(e,name,xs)
            if r is not None: return r
        so=e.fsort(b)
        f=e.getuf('%s_%s'%(name,'r' if e.mode=='real' else b),*([so]*(len(xs)+1)))
        zs=[e.zreal(x) if e.mode=='real' else fpv(x,b) for x in xs]
        r=f(*zs)
        e.trusted.add('libm %s: uninterpreted (deterministic) function%s'%(name,'' if not axioms else ' with axioms'))
        if axioms: axioms(e,zs,r)
        return r
    for s in ('','f'): EXACT[name+s]=h
    REGEX.append((re.compile(r'^llvm\.%s\.f'%name),h))
for n in ['exp','log','log10','asin','acos','atan','tan','pow','atan2','exp2','log2','cosh','sinh','tanh','cbrt']: ufun(n)
def trig(other,sign):
    def ax(e,zs,r):
        if e.mode=='real':
            x=zs[0]; g=e.getuf('%s_r'%other,z3.RealSort(),z3.RealSort())(x)
            e.add_axiom(r*r+g*g==1,('trig',x.get_id())); e.keep=getattr(e,'keep',[]); e.keep.append(x)
            e.add_axiom(z3.And(r>=-1,r<=1),('trigb',r.get_id())); e.keep.append(r)
    return ax
ufun('sin',axioms=trig('cos',0)); ufun('cos',axioms=trig('sin',0))
@H('fmod','fmodf')
def _(e,st,a,I,fn,t): return e.fbin('frem',a[0],a[1],fn.ret.bits)
def fminmax(e,st,a,I,fn,t,p):
    b=fn.ret.bits; x=e.tofp(a[0],b); y=e.tofp(a[1],b)
    if e.mode=='real': return e.ite_val(e.fcmp(p,x,y,b),x,y,fn.ret)
    return e.ite_val(e.isnan(y,b),x,e.ite_val(e.fcmp(p,x,y,b) if True else 0,x,e.ite_val(e.isnan(x,b),y,y,fn.ret),fn.ret),fn.ret)
H('fmin','fminf')(lambda e,st,a,I,fn,t: fminmax(e,st,a,I,fn,t,'olt')); H('fmax','fmaxf')(lambda e,st,a,I,fn,t: fminmax(e,st,a,I,fn,t,'ogt'))
HR(r'^llvm\.minnum')(lambda e,st,a,I,fn,t: fminmax(e,st,a,I,fn,t,'olt')); HR(r'^llvm\.maxnum')(lambda e,st,a,I,fn,t: fminmax(e,st,a,I,fn,t,'ogt'))
@HR(r'^llvm\.copysign|^copysignf?$')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits; x=e.tofp(a[0],b); y=e.tofp(a[1],b)
    if isinstance(x,float) and isinstance(y,float): return math.copysign(x,y)
    X=fpv(x,b); Y=fpv(y,b)
    return z3.If(z3.fpIsNegative(Y),z3.fpNeg(z3.fpAbs(X)),z3.fpAbs(X))
@HR(r'^llvm\.fmuladd')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits
    return e.fbin('fadd',e.fbin('fmul',a[0],a[1],b),a[2],b)
@HR(r'^llvm\.is\.fpclass')
def _(e,st,a,I,fn,t):
    b=t[0].bits; x=e.tofp(a[0],b); m=a[1]
    if e.mode=='real': return bool(m&0x1f8) and not (m&3)
    X=fpv(x,b); c=[]
    if m&3: c.append(z3.fpIsNaN(X))
    if m&(4|512): c.append(z3.fpIsInf(X) if (m&(4|512))==(4|512) else z3.And(z3.fpIsInf(X),z3.fpIsNegative(X) if m&4 else z3.fpIsPositive(X)))
    if m&0x108: c.append(z3.fpIsNormal(X))
    if m&0x90: c.append(z3.fpIsSubnormal(X))
    if m&0x60: c.append(z3.fpIsZero(X))
    return zor(*c)
H('lrintf','lrint','lroundf','lround')(lambda e,st,a,I,fn,t: e.fp2int(EXACT['rint' if 'rint' in fn.name else 'round'](e,st,a,I,type('F',(),{'ret':t[0]}),t),t[0].bits,fn.ret.bits,True,st))
# ---- rtti
@H('__dynamic_cast')
def _(e,st,a,I,fn,t):
    p=e.toptr(st,a[0])
    if isinstance(p,PtrU):
        r=None
        for c,q in reversed(p.alts):
            v=EXACT['__dynamic_cast'](e,st,[q]+a[1:],I,fn,t)
            r=v if r is None else e.ite(c,v,r)
        return r
    if p.o==0: return NULL
    vp=e.load(st,p,PTRT(e),I)
    g=e.mod.globals[st.mem[vp.o].name]
    top=e.read_raw(st,vp.o,vp.off-16,8); ti=e.read_raw(st,vp.o,vp.off-8,8)
    top=sgn(e.tobv(top,64),64) if isinstance(top,int) else 0
    tin=[n for n,i in e.gobj.items() if i==ti.o][0]; dst=[n for n,i in e.gobj.items() if i==a[2].o][0]
    def find(n,off):
        if n==dst: return off
        for b,o in e.ti_bases(n):
            r=find(b,off+o)
            if r is not None: return r
        return None
    off=find(tin,0)
    if off is None: return NULL
    return e.ptr_add(p,top+off)
def PTRT(e):
    import run
    return run.PTR
# ---- libstdc++ red-black tree (ordering only: no rebalancing; iteration order is the same)
def rd(e,st,p,off): return e.load(st,e.ptr_add(p,off),PTRT(e))
def wr(e,st,p,off,v): e.store(st,e.ptr_add(p,off),v,PTRT(e))
def alts(e,st,p):
    """fork a state on a symbolic pointer: [(state, Ptr)]"""
    p=e.toptr(st,p)
    if not isinstance(p,PtrU): return [(st,p)]
    out=[]
    for c,q in p.alts:
        f,m=e.feasible(st,c)
        if not f: continue
        s2=st.fork(); s2.pc=st.pc+((c,) if c is not True else ()); s2.model=m
        out.append((s2,q))
    return out
def rda(e,st,p,off): return alts(e,st,rd(e,st,p,off))
@H('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def _(e,st,a,I,fn,t):
    left,x,p,h=a; left=e.tobool(left)
    e.trusted.add('libstdc++ _Rb_tree_insert_and_rebalance: order-preserving model without rebalancing')
    res=[]
    if isinstance(left,bool): ls=[(st,left)]
    else:
        ls=[]
        for c,v in((left,True),(znot(left),False)):
            f,m=e.feasible(st,c)
            if f:
                s2=st.fork(); s2.pc=st.pc+(c,); s2.model=m; ls.append((s2,v))
    x=e.toptr(st,x); h=e.toptr(st,h)
    for s1,lf in ls:
        for s,pp in alts(e,s1,p):
            wr(e,s,x,8,pp); wr(e,s,x,16,NULL); wr(e,s,x,24,NULL); e.store(s,x,1,e.int_type(32))
            if lf:
                wr(e,s,pp,16,x)
                if pp.same(h): wr(e,s,h,8,x); wr(e,s,h,24,x); res.append(('ret',None,s))
                else:
                    for s3,q in rda(e,s,h,16):
                        if pp.same(q): wr(e,s3,h,16,x)
                        res.append(('ret',None,s3))
            else:
                wr(e,s,pp,24,x)
                for s3,q in rda(e,s,h,24):
                    if pp.same(q): wr(e,s3,h,24,x)
                    res.append(('ret',None,s3))
    return res
def tinc(e,st,x,A,B):
    out=[]
    def down(s,x):
        for s2,l in rda(e,s,x,A):
            if not l.o: out.append((s2,x))
            else: down(s2,l)
    def up(s,x,y):
        for s2,r in rda(e,s,y,B):
            if x.same(r):
                for s3,yy in rda(e,s2,y,8): up(s3,y,yy)
            else:
                for s3,xr in rda(e,s2,x,B): out.append((s3,y if not xr.same(y) else x))
    for s,r in rda(e,st,x,B):
        if r.o: down(s,r)
        else:
            for s2,y in rda(e,s,x,8): up(s2,x,y)
    return out
def tres(l): return l[0][1] if False else [('ret',p,s) for s,p in l]
@HR(r'^_ZSt18_Rb_tree_increment')
def _(e,st,a,I,fn,t): return tres([r for s,x in alts(e,st,a[0]) for r in tinc(e,s,x,16,24)])
@HR(r'^_ZSt18_Rb_tree_decrement')
def _(e,st,a,I,fn,t):
    out=[]
    for s,x in alts(e,st,a[0]):
        for s1,p in rda(e,s,x,8):
            hdr=False
            if p.o and e.tobv(e.load(s1,x,e.int_type(32)),32)==0:
                for s2,pp in rda(e,s1,p,8):
                    if pp.same(x): out+=rda(e,s2,x,24)
                    else: out+=tinc(e,s2,x,24,16)
            else: out+=tinc(e,s1,x,24,16)
    return tres(out)
# ---- iostream: formatted output is outside every contract (message text); no effect
def strm(e,st,a,I,fn,t):
    e.trusted.add('iostream formatting/logging: no effect on program state')
    if fn.ret.kind=='ptr':
        if a: return a[0]
        o=e.new_obj(st,512,'log',kind='heap'); return Ptr(o.id,0)
    if fn.ret.kind=='void': return None
    return e.fresh_of(fn.ret,'io')
REGEX.append((re.compile(r'^_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE(C[12]|D[12])|^_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE(C[12]|D[12])|^_ZNSolsE|^_ZNSo\d|^_ZStls|^_ZSt4endl|^_ZSt5flush|^_ZSt16__ostream_insert|^_ZNSt9basic_iosI|^_ZNSt8ios_base|^_ZNSo|^_ZNKSt9basic_ios|^_ZSt(3hex|3dec|4setw|12setprecision)|^_ZN5Aqsis3logEv|^_ZN5Aqsis(lsE|5debug|7warning|5error|4info|8critical|7message)|^_ZStlsI|^_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strE|^_ZN5Aqsis6error|^_ZN5Aqsis15log'),strm))
def emptystr(e,st,a,I,fn,t):
    p=e.toptr(st,a[0])
    e.store(st,p,e.ptr_add(p,16),PTRT(e)); e.store(st,e.ptr_add(p,8),0,e.int_type(64)); e.store(st,e.ptr_add(p,16),0,e.int_type(8))
    e.trusted.add('iostream formatting/logging: no effect on program state')
REGEX.insert(0,(re.compile(r'^_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv|^_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv|^_ZNOSt7__cxx1119basic_ostringstream.*3strEv|^_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv'),emptystr))
# ---- specification interface
def cstr(e,st,p):
    p=e.toptr(st,p); out=[]
    i=0
    while True:
        b=e.read_raw(st,p.o,p.off+i,1)
        if b==0: break
        out.append(b); i+=1
    return bytes(out).decode()
def inp(e,st,a,kind,sort,rng=None):
    n=cstr(e,st,a[0])
    k=st.ghost.get(('in',n),0); st.ghost[('in',n)]=k+1
    full='%s#%d'%(n,k)
    v=z3.Const('in_%s_%d'%(n,k),sort)
    e.inputs.append((full,kind,v))
    return v
for nm,bits,kind in [('i8',8,'i'),('u8',8,'u'),('i16',16,'i'),('u16',16,'u'),('i32',32,'i'),('u32',32,'u'),('i64',64,'i'),('u64',64,'u')]:
    def mk(bits,kind):
        def h(e,st,a,I,fn,t): return inp(e,st,a,'%s%d'%(kind,bits),z3.BitVecSort(bits))
        return h
    EXACT['vp_'+nm]=mk(bits,kind)
@H('vp_bool')
def _(e,st,a,I,fn,t): 
    v=inp(e,st,a,'bool',z3.BoolSort())
    return v
@H('vp_f32','vp_f32_near')
def _(e,st,a,I,fn,t): return inp(e,st,a,'f32',e.fsort(32))
@H('vp_f64')
def _(e,st,a,I,fn,t): return inp(e,st,a,'f64',e.fsort(64))
@H('vp_range')
def _(e,st,a,I,fn,t):
    v=inp(e,st,a,'i32',z3.BitVecSort(32)); lo=e.tobv(a[1],32); hi=e.tobv(a[2],32)
    e.assume(st,zand(e.icmp(st,'sle',lo,v,fn.ret),e.icmp(st,'sle',v,hi,fn.ret)))
    return v
@H('vp_f32_in','vp_f64_in')
def _(e,st,a,I,fn,t):
    b=fn.ret.bits
    v=inp(e,st,a,'f%d'%b,e.fsort(b))
    e.assume(st,zand(e.fcmp('ole',a[1],v,b),e.fcmp('ole',v,a[2],b)))
    return v
@H('vp_pick')
def _(e,st,a,I,fn,t):
    n=e.tobv(a[1],32)
    nm=cstr(e,st,a[0])
    k=st.ghost.get(('in',nm),0); st.ghost[('in',nm)]=k+1
    if e.pick_i<len(e.picks): v=e.picks[e.pick_i]
    else: v=0; e.picks.append(0)
    if len(e.pick_log)<=e.pick_i: e.pick_log.append(n)
    e.pick_i+=1
    if st.pc and e.depth>3: pass
    e.inputs.append(('%s#%d'%(nm,k),'pick',v))
    return v
@H('vp_assume')
def _(e,st,a,I,fn,t):
    c=e.tobool(a[0])
    if is_sym(c): 
        c=z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathDead()
    e.assume(st,c)
@H('vp_assert')
def _(e,st,a,I,fn,t):
    lab=cstr(e,st,a[1]); c=e.tobool(a[0])
    e.oblige(st,c,lab,I,'assert',assume=False)
@H('vp_reach')
def _(e,st,a,I,fn,t):
    lab=cstr(e,st,a[0]); e.covers.setdefault(lab,[]).append(st.pc)
@H('vp_cut')
def _(e,st,a,I,fn,t):
    """forget the path condition: what follows is proved from the assumptions made after this point only (sound: weaker hypotheses)"""
    st.pc=(); st.model=None
@H('vp_is_symbolic')
def _(e,st,a,I,fn,t): return 1
@H('vp_close')
def _(e,st,a,I,fn,t):
    x=e.tofp(a[0],64); y=e.tofp(a[1],64)
    if e.mode=='real': return e.fcmp('oeq',x,y,64)
    return e.fcmp('oeq',x,y,64)
@H('vp_concretize')
def _(e,st,a,I,fn,t):
    """case split: enumerate all feasible values (bounded by arg1)"""
    v=e.tobv(a[0],64); mx=a[1]
    if isinstance(v,int): return v
    outs=[]
    s=z3.Solver(); s.set('timeout',10000); s.add(*e.axioms); s.add(*st.pc)
    while True:
        r=s.check()
        if r==z3.unsat: break
        if r!=z3.sat: raise Unsupported('concretize: solver unknown')
        k=s.model().eval(v,model_completion=True).as_long()
        if len(outs)>=mx: raise Unsupported('concretize: too many values')
        s2=st.fork(); s2.pc=st.pc+(v==z3.BitVecVal(k,64),); s2.model=None
        outs.append(('ret',k,s2)); s.add(v!=z3.BitVecVal(k,64))
    return outs
