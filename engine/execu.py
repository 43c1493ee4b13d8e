"""Symbolic executor / verification-condition generator over LLVM IR.

Every run decodes the bitcode produced from /repo's current sources.  States are
merged at control-flow joins, so that one obligation covers all paths."""
import sys, re, time, math, itertools, heapq
from fractions import Fraction
import z3, ival
from values import *
import llvmread as LR
from llvmread import Reg, Const

sys.setrecursionlimit(100000)

class PathDead(Exception): pass
class Budget(Exception): pass
class NeedPick(Exception):
    def __init__(s,n): s.n=n

class State:
    __slots__=('mem','pc','tok','model','ghost','npc')
    def __init__(s):
        s.mem={}; s.pc=(); s.tok=object(); s.model=PModel({}); s.ghost={}
    def fork(s):
        t=State(); t.mem=dict(s.mem); t.pc=s.pc; t.model=s.model; t.ghost=dict(s.ghost)
        s.tok=object(); t.tok=object()
        return t

_vars_cache={}
def vars_of(x):
    """ids of the uninterpreted symbols of a term (cached; the cache keeps the term alive)"""
    k=x.get_id(); r=_vars_cache.get(k)
    if r is not None: return r[1]
    out=set(); stack=[(x,0)]
    # iterative post-order
    work=[x]
    while work:
        y=work[-1]; ky=y.get_id()
        if ky in _vars_cache: work.pop(); continue
        if not z3.is_app(y): _vars_cache[ky]=(y,frozenset([-1])); work.pop(); continue
        n=y.num_args()
        if n==0:
            d=y.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED:
                _syms[ky]=y; _vars_cache[ky]=(y,frozenset([ky]))
            else: _vars_cache[ky]=(y,frozenset())
            work.pop(); continue
        ch=y.children(); pend=[z for z in ch if z.get_id() not in _vars_cache]
        if pend: work+=pend; continue
        v=frozenset().union(*[_vars_cache[z.get_id()][1] for z in ch])
        if y.decl().kind()==z3.Z3_OP_UNINTERPRETED:
            d=y.decl(); kd=-2-d.get_id() if hasattr(d,'get_id') else -2
            _keep.append(d); v=v|frozenset([kd])
        _vars_cache[ky]=(y,v); work.pop()
    return _vars_cache[k][1]
_syms={}; _keep=[]; _slice_cache={}
class PModel:
    """assignment of the constants seen so far; used only as a witness that a branch is feasible"""
    __slots__=('d',)
    def __init__(s,d): s.d=d
    @staticmethod
    def of(m,vs):
        d={}
        for v in vs:
            if v<0: return None
            y=_syms[v]; d[v]=(y,m.eval(y,model_completion=True))
        return PModel(d)
    def eval(s,c,model_completion=True):
        sub=[]
        for v in vars_of(c):
            if v<0: return z3.BoolVal(False)
            p=s.d.get(v)
            if p is None:
                return z3.BoolVal(False)
            sub.append(p)
        return z3.simplify(z3.substitute(c,*sub))
def _join(old,m,vs):
    if old is None: return None
    n=PModel.of(m,vs)
    if n is None: return None
    if n.d.keys() and old.d:
        d=dict(old.d); d.update(n.d); return PModel(d)
    return PModel({**old.d,**n.d})
class Obligation:
    __slots__=('label','pc','goal','where','kind','status','backend','time','model','note','fn')
    def __init__(s,label,pc,goal,where,kind,fn=''):
        s.label=label; s.pc=pc; s.goal=goal; s.where=where; s.kind=kind; s.status=None; s.backend=None; s.time=0; s.model=None; s.note=''; s.fn=fn

class Frame:
    __slots__=('fn','regs','allocas','blocks','visits','exc')

def zand(*xs):
    r=[]
    for x in xs:
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r)==1 else z3.And(*r)
def zor(*xs):
    r=[]
    for x in xs:
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r)==1 else z3.Or(*r)
def znot(x):
    if x is True: return False
    if x is False: return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

class Engine:
    def __init__(self, mod, mode='fp', unwind=64, picks=(), handlers=None, feas_rlimit=400000, opts=None):
        self.mod=mod; self.mode=mode; self.unwind=unwind
        self.next_id=1; self.next_base=0x10000
        self.gobj={}      # global -> obj id
        self.fobj={}      # fn -> id
        self.idfn={}
        self.obls=[]; self.covers={}; self.inputs=[]   # (name, kind, z3 var)
        self.nvar=0
        self.axioms=[]    # global facts (UF axioms)
        self.uf={}
        self.funcs_seen={}
        self.picks=list(picks); self.pick_i=0; self.pick_log=[]
        self.handlers={} if handlers is None else handlers
        self.handler_cache={}
        self.feas_rlimit=feas_rlimit
        self.unwind_hits=[]
        self.ninst=0; self.nfeas=0; self.tfeas=0
        self.opts=opts or {}
        self.splitint=int(self.opts.get('splitint',0))
        self.exact_globals={}
        self.stack=[]
        self.trusted=set()
        self.max_inst=self.opts.get('max_inst',6000000)
        self.bounded_notes=set()
        self.input_counts={}
        self.loopinfo=[]
        self.depth=0
        self.objmeta={}
        self.baseobj={}
        self.deadline=None
    # ---------------------------------------------------------------- misc
    def fresh(self,sort,hint='v'):
        self.nvar+=1
        return z3.Const('%s!%d'%(hint,self.nvar),sort)
    def fresh_of(self,ty,hint='u'):
        k=ty.kind
        if k=='int':
            if ty.bits==1: return self.fresh(z3.BoolSort(),hint)
            return self.fresh(z3.BitVecSort(ty.bits),hint)
        if k=='fp': return self.fresh(self.fsort(ty.bits),hint)
        if k=='ptr': return NULL if False else UNDEF
        if k in('struct',): return tuple(self.fresh_of(e,hint) for e in ty.elems)
        if k in('array','vector'): return tuple(self.fresh_of(ty.elems[0],hint) for _ in range(ty.n))
        raise Unsupported('fresh of %r'%ty)
    def fsort(self,bits):
        return z3.RealSort() if self.mode=='real' else FS[bits]
    def where(self,inst=None):
        fn=self.stack[-1] if self.stack else None
        s=''
        if inst is not None and fn is not None:
            f=self.mod.locfile(inst) or fn.file
            s='%s:%d'%(f,inst.line)
        return s
    # ---------------------------------------------------------------- memory
    def new_obj(self,st,size,name,default='undef',kind='heap'):
        i=self.next_id; self.next_id+=1
        base=self.next_base
        n=size if isinstance(size,int) else (1<<32)
        self.next_base=(base+n+64+63)&~63
        o=Obj(i,size,name,base,default,kind); o.owner=st.tok
        st.mem[i]=o; self.baseobj[i]=base
        return o
    def wobj(self,st,oid):
        o=st.mem.get(oid)
        if o is None: raise Unsupported('write to dead object')
        if o.owner is not st.tok:
            o=o.clone(); o.owner=st.tok; st.mem[oid]=o
        return o
    def global_ptr(self,st,g):
        oid=self.gobj.get(g.name)
        if oid is None:
            oid=self.next_id; self.next_id+=1
            base=self.next_base; self.next_base=(base+max(g.ty.size,1)+64+63)&~63
            self.baseobj[oid]=base; self.gobj[g.name]=oid
        if oid not in st.mem:
            o=Obj(oid,max(g.ty.size,1),g.name,self.baseobj[oid],'undef','global'); o.owner=st.tok; o.const=g.const
            st.mem[oid]=o
            if not g.decl:
                init=LR.L.LLVMGetInitializer(g.ref)
                self.init_const(st,o,0,self.mod.const(init))
            else:
                self.extern_global(st,o,g)
        return Ptr(oid,0)
    def extern_global(self,st,o,g):
        n=g.name
        if n=='__libc_single_threaded': o.cells[0]=(1,1)
        else: o.default='fresh'; self.trusted.add('external global %s: arbitrary contents'%n) if not n.startswith(('_ZTV','_ZTI','__dso','_ZSt')) else None
    def init_const(self,st,o,off,c):
        k=c.k; ty=c.ty
        if k=='zero' or (k=='null' and ty.kind!='ptr'):
            if off==0 and ty.size>=o.size: o.default='zero'; return
            self.zero_init(o,off,ty); return
        if k=='bytes':
            for i,b in enumerate(c.v): o.cells[off+i]=(1,b)
            return
        if k=='agg':
            if ty.kind=='struct':
                for e,of in zip(c.v,ty.offs): self.init_const(st,o,off+of,e)
            else:
                es=ty.elems[0].size
                for i,e in enumerate(c.v): self.init_const(st,o,off+i*es,e)
            return
        if k=='undef': return
        v=self.cval(st,c)
        self.put(o,off,ty.store,self.mem_val(v,ty))
    def zero_init(self,o,off,ty):
        k=ty.kind
        if k=='struct':
            for e,of in zip(ty.elems,ty.offs): self.zero_init(o,off+of,e)
        elif k in('array','vector'):
            for i in range(ty.n): self.zero_init(o,off+i*ty.elems[0].size,ty.elems[0])
        elif k=='int': o.cells[off]=(ty.store,0)
        elif k=='fp': o.cells[off]=(ty.store,self.fconst(0.0))
        elif k=='ptr': o.cells[off]=(8,NULL)
    def fconst(self,x,bits=64):
        if self.mode=='real':
            if x!=x or x in(math.inf,-math.inf): return self.special_real(x)
            return Fraction(x)
        return x
    def special_real(self,x):
        n='real_nan' if x!=x else ('real_inf' if x>0 else 'real_ninf')
        v=z3.Real(n)
        if n=='real_inf': self.add_axiom(v>z3.RealVal(10)**40,'inf')
        if n=='real_ninf': self.add_axiom(v<-(z3.RealVal(10)**40),'ninf')
        return v
    def add_axiom(self,a,key):
        if key in self.uf: return
        self.uf[key]=True; self.axioms.append(a)
    def mem_val(self,v,ty):
        if ty.kind=='int' and ty.bits==1:
            if v is True or v is False: return int(v)
            if isinstance(v,int): return v
            if z3.is_bool(v): return z3.If(v,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
        if ty.kind=='int' and ty.bits%8 and not isinstance(v,(int,_UndefT)) and is_sym(v):
            return z3.ZeroExt(ty.store*8-ty.bits,v)
        return v
    # raw cell put with overlap handling
    def put(self,o,off,size,val):
        if isinstance(val,Blob):
            p=off
            for s,v in val.pieces: self.put(o,p,s,v); p+=s
            return
        cells=o.cells
        c=cells.get(off)
        if c is not None and c[0]==size:
            cells[off]=(size,val); return
        lo=off-15 if off>=15 else 0
        for p in range(lo,off+size):
            c=cells.get(p)
            if c is None: continue
            cs=c[0]
            if p+cs<=off: continue
            del cells[p]
            if p<off or p+cs>off+size:
                bv=self.bytes_of(c[1],cs)
                for i in range(cs):
                    q=p+i
                    if q<off or q>=off+size: cells[q]=(1,bv[i])
        if o.default=='zero' or o.default=='fresh' or True:
            cells[off]=(size,val)
    def bytes_of(self,val,size):
        """list of byte values, little endian"""
        if isinstance(val,int): return [(val>>(8*i))&255 for i in range(size)]
        if val is UNDEF: return [UNDEF]*size
        if isinstance(val,float):
            b=float_bits(val,size*8); return [(b>>(8*i))&255 for i in range(size)]
        if isinstance(val,(Ptr,PtrU)):
            b=self.ptr_int(val)
            if isinstance(b,int): return [(b>>(8*i))&255 for i in range(8)]
            return [z3.Extract(8*i+7,8*i,b) for i in range(8)]
        bv=self.tobv(val,size*8)
        if isinstance(bv,int): return [(bv>>(8*i))&255 for i in range(size)]
        if size==1: return [bv]
        return [z3.simplify(z3.Extract(8*i+7,8*i,bv)) for i in range(size)]
    def dflt(self,st,o,off,size,ty):
        """value of uninitialised cell"""
        if o.default=='zero':
            if ty is not None and ty.kind=='fp': return self.fconst(0.0)
            if ty is not None and ty.kind=='ptr': return NULL
            return 0
        if ty is not None and ty.kind=='ptr':
            return UNDEF
        if ty is not None and ty.kind=='fp': v=self.fresh(self.fsort(ty.bits),'uninit')
        else: v=self.fresh(z3.BitVecSort(size*8),'uninit')
        # persist
        o2=self.wobj(st,o.id); o2.cells[off]=(size,v)
        return v
    def read_raw(self,st,oid,off,size,ty=None):
        o=st.mem[oid]
        c=o.cells.get(off)
        if c is not None and c[0]==size: return c[1]
        # gather
        pieces=[]; p=off; end=off+size; cells=o.cells
        anyc=False
        hit=False
        for q in range(max(0,off-15),end):
            cc=cells.get(q)
            if cc is not None and q+cc[0]>off: hit=True; break
        if not hit: return self.dflt(st,o,off,size,ty)
        while p<end:
            c=cells.get(p)
            if c is not None and p+c[0]<=end:
                pieces.append(c); p+=c[0]; continue
            # covering cell starting earlier or too-large
            found=False
            for q in range(p,max(-1,p-16),-1):
                cc=cells.get(q)
                if cc is not None and q+cc[0]>p:
                    bs=self.bytes_of(cc[1],cc[0])
                    take=min(q+cc[0],end)-p
                    for i in range(take): pieces.append((1,bs[p-q+i]))
                    p+=take; found=True; break
            if found: continue
            # gap: to next cell
            nx=p+1
            while nx<end and nx not in cells: nx+=1
            pieces.append((nx-p,self.dflt(st,o,p,nx-p,None))); p=nx
        if all(isinstance(v,int) for _,v in pieces):
            r=0; sh=0
            for s,v in pieces: r|=(v&mask(8*s))<<sh; sh+=8*s
            return r
        if len(pieces)==1 and pieces[0][0]==size: return pieces[0][1]
        return Blob(pieces)
    def tobv(self,v,bits):
        """force to int/z3 BV of given width"""
        if isinstance(v,bool): return int(v)
        if isinstance(v,int): return v&mask(bits)
        if isinstance(v,z3.BitVecRef): return v
        if isinstance(v,z3.BoolRef): return z3.If(v,z3.BitVecVal(1,bits),z3.BitVecVal(0,bits))
        if isinstance(v,float): return float_bits(v,bits)
        if v is UNDEF: return self.fresh(z3.BitVecSort(bits),'undef')
        if isinstance(v,z3.FPRef): 
            if z3.is_app_of(v,z3.Z3_OP_FPA_TO_FP) and v.num_args()==1 and z3.is_bv(v.arg(0)): return v.arg(0)
            r=z3.fpToIEEEBV(v)
            return r
        if isinstance(v,Fraction) or (is_sym(v) and z3.is_real(v)):
            if isinstance(v,Fraction): return float_bits(float(v),bits)
            return self.real_bits(v,bits)
        if isinstance(v,(Ptr,PtrU)): return self.ptr_int(v)
        if isinstance(v,Blob):
            parts=[]
            for s,x in v.pieces:
                b=self.tobv(x,8*s); parts.append((8*s,b))
            if all(isinstance(b,int) for _,b in parts):
                r=0;sh=0
                for s,b in parts: r|=b<<sh; sh+=s
                return r
            parts=[bvv(b,s) for s,b in parts]
            return z3.simplify(z3.Concat(*parts[::-1])) if len(parts)>1 else parts[0]
        if isinstance(v,tuple):
            n=len(v); return self.tobv(Blob([(bits//8//n,x) for x in v]),bits)
        raise Unsupported('tobv %r'%(v,))
    def real_bits(self,v,bits):
        f=self.getuf('realbits%d'%bits,z3.RealSort(),z3.BitVecSort(bits))
        return f(v)
    def getuf(self,name,*sorts):
        f=self.uf.get(name)
        if f is None:
            f=z3.Function(name,*sorts); self.uf[name]=f
        return f
    def tofp(self,v,bits):
        if isinstance(v,float): return v
        if isinstance(v,z3.FPRef): return v
        if self.mode=='real':
            if isinstance(v,Fraction): return v
            if is_sym(v) and z3.is_real(v): return v
            if isinstance(v,int) and not isinstance(v,bool):
                return self.fconst(bits_float(v,bits))
            if v is UNDEF: return self.fresh(z3.RealSort(),'undef')
            if is_sym(v) and isinstance(v,z3.BitVecRef):
                if z3.is_app(v) and v.decl().name()=='realbits%d'%bits: return v.arg(0)
                return self.getuf('bitsreal%d'%bits,z3.BitVecSort(bits),z3.RealSort())(v)
            if isinstance(v,Blob):
                return self.tofp(self.tobv(v,bits),bits)
            raise Unsupported('tofp real %r'%(v,))
        if isinstance(v,int): return bits_float(v,bits)
        if isinstance(v,z3.BitVecRef): return z3.fpBVToFP(v,FS[bits])
        if v is UNDEF: return self.fresh(FS[bits],'undef')
        if isinstance(v,Blob):
            return self.tofp(self.tobv(v,bits),bits)
        raise Unsupported('tofp %r'%(v,))
    def toptr(self,st,v):
        if isinstance(v,(Ptr,PtrU)): return v
        if v is UNDEF: return v
        if isinstance(v,Blob):
            if len(v.pieces)==1: return self.toptr(st,v.pieces[0][1])
            v=self.tobv(v,64)
        if isinstance(v,z3.BitVecRef):
            v=z3.simplify(v)
            if z3.is_bv_value(v): v=v.as_long()
        if isinstance(v,int):
            if v==0: return NULL
            for oid in self.idfn:
                if self.baseobj[oid]==v: return Ptr(oid,0)
            for oid,b in self.baseobj.items():
                o=st.mem.get(oid)
                sz=o.size if o is not None and isinstance(o.size,int) else (1<<32)
                if b<=v<=b+sz and o is not None: return Ptr(oid,v-b)
            return Ptr(0,v)
        if is_sym(v) and z3.is_app_of(v,z3.Z3_OP_ITE):
            return self.ite(v.arg(0),self.toptr(st,v.arg(1)),self.toptr(st,v.arg(2)))
        raise Unsupported('symbolic int to ptr %s'%str(v)[:200])
    def ptr_int(self,p):
        if isinstance(p,PtrU):
            r=None
            for c,q in reversed(p.alts):
                x=bvv(self.ptr_int(q),64)
                r=x if r is None else z3.If(c,x,r)
            return r
        if p.o==0: return p.off
        b=self.baseobj[p.o]
        if isinstance(p.off,int): return (b+p.off)&mask(64)
        return z3.BitVecVal(b,64)+p.off
    # ---------------------------------------------------------------- obligations
    def oblige(self,st,cond,label,inst=None,kind='implicit',assume=True):
        """cond must hold"""
        if cond is True: 
            if kind=='assert': self.obls.append(self._mk(label,st,True,inst,kind))
            return
        self.obls.append(self._mk(label,st,cond,inst,kind))
        if cond is False:
            if assume: raise PathDead()
            return
        if assume: self.assume(st,cond)
    def _mk(self,label,st,cond,inst,kind):
        return Obligation(label,st.pc,cond,self.where(inst),kind,self.stack[-1].name if self.stack else '')
    def assume(self,st,c):
        if c is True: return
        if c is False: raise PathDead()
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(c,model_completion=True)):
                    ok,m=self.feasible(st,c)
                    if not ok: raise PathDead()
                    st.model=m
            except z3.Z3Exception: st.model=None
        st.pc=st.pc+(c,)
    def feasible(self,st,c):
        """is pc and c satisfiable?  returns (bool, model) - unknown counts as feasible"""
        if c is True: return True,st.model
        if c is False: return False,None
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c,model_completion=True)): return True,st.model
            except Exception: pass
        if self.opts.get('nofeas'): return True,None
        t=time.time()
        if self.mode=='real' and ival.truth(c,ival.var_bounds(st.pc),{}) is False: return False,None
        # only the conjuncts connected to c by shared variables matter (the path condition itself is satisfiable, or the path is dead anyway)
        vs=set(vars_of(c)); sl=[]; rest=[(x,vars_of(x)) for x in self.axioms]+[(x,vars_of(x)) for x in st.pc]
        ch=True
        while ch and rest:
            ch=False; nr=[]
            for x,v in rest:
                if not v.isdisjoint(vs): sl.append(x); vs|=v; ch=True
                else: nr.append((x,v))
            rest=nr
        key=None
        if len(sl)<=2:
            key=(c.get_id(),)+tuple(sorted(x.get_id() for x in sl))
            r=_slice_cache.get(key)
            if r is not None: return r[0],(_join(st.model,r[1],vs) if r[0] else None)
        s=z3.SimpleSolver() if self.splitint else z3.Solver(); s.set('rlimit',self.feas_rlimit); s.set('timeout',self.opts.get('feas_ms',4000))
        for x in sl: s.add(x)
        s.add(c)
        r=s.check()
        self.nfeas+=1; self.tfeas+=time.time()-t
        if r==z3.unsat:
            if key: _slice_cache[key]=(False,None,c,sl)
            return False,None
        if r==z3.sat:
            m=s.model()
            if key: _slice_cache[key]=(True,m,c,sl)
            if not rest: return True,PModel.of(m,vs)
            return True,_join(st.model,m,vs)
        return True,None
    # ---------------------------------------------------------------- ite / merge of values
    def ite(self,c,a,b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        ta=type(a); tb=type(b)
        if ta is tuple and tb is tuple: return tuple(self.ite(c,x,y) for x,y in zip(a,b))
        if ta is tb and ta in(int,bool,Fraction) and a==b: return a
        if ta is float and tb is float and (float_bits(a,64)==float_bits(b,64)): return a
        if isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef) and a.eq(b): return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a,(Ptr,PtrU)) or isinstance(b,(Ptr,PtrU)):
            if not isinstance(a,(Ptr,PtrU)): 
                if isinstance(a,int) and a==0: a=NULL
                else: return None if False else self._mixptr(c,a,b)
            if not isinstance(b,(Ptr,PtrU)): 
                if isinstance(b,int) and b==0: b=NULL
                else: return self._mixptr(c,a,b)
            return self.ite_ptr(c,a,b)
        if isinstance(a,Blob) or isinstance(b,Blob):
            if isinstance(a,Blob) and isinstance(b,Blob) and [p[0] for p in a.pieces]==[p[0] for p in b.pieces]:
                return Blob([(s,self.ite(c,x,y)) for (s,x),(_,y) in zip(a.pieces,b.pieces)])
            n=(a if isinstance(a,Blob) else b).size*8
            return self.ite(c,self.tobv(a,n),self.tobv(b,n))
        if ta is bool or tb is bool or (isinstance(a,z3.BoolRef)) or isinstance(b,z3.BoolRef):
            if a is True and b is False: return c
            if a is False and b is True: return znot(c)
            if ta is int: a=bool(a)
            if tb is int: b=bool(b)
            if a is True: return zor(c,b)
            if a is False: return zand(znot(c),b)
            if b is True: return zor(znot(c),a)
            if b is False: return zand(c,a)
            return z3.If(c,a,b)
        A=is_sym(a); B=is_sym(b)
        if A: so=a.sort()
        elif B: so=b.sort()
        else: so=None
        if so is None:
            if ta is Fraction or tb is Fraction:
                return z3.If(c,self.zreal(a),self.zreal(b))
            if ta is float or tb is float:
                raise Unsupported('ite of concrete floats needs width')
            raise Unsupported('ite of concrete ints needs width')
        k=so.kind()
        if k==z3.Z3_BV_SORT:
            n=so.size(); a=bvv(self.tobv(a,n),n); b=bvv(self.tobv(b,n),n)
            return z3.If(c,a,b)
        if k==z3.Z3_FLOATING_POINT_SORT:
            n=32 if so.sbits()==24 else 64
            return z3.If(c,fpv(self.tofp(a,n),n),fpv(self.tofp(b,n),n))
        if k==z3.Z3_REAL_SORT:
            return z3.If(c,self.zreal(a),self.zreal(b))
        return z3.If(c,a,b)
    def _mixptr(self,c,a,b):
        return z3.If(c,bvv(self.tobv(a,64),64),bvv(self.tobv(b,64),64))
    def zreal(self,v):
        if isinstance(v,Fraction): return z3.RealVal(str(v.numerator)+'/'+str(v.denominator)) if v.denominator!=1 else z3.RealVal(v.numerator)
        if isinstance(v,int): return z3.RealVal(v)
        if isinstance(v,float): return self.zreal(self.fconst(v))
        return v
    def ite_ty(self,c,a,b,size,fp=None):
        """ite where concrete scalars have byte size `size`"""
        if c is True: return a
        if c is False: return b
        ta,tb=type(a),type(b)
        if ta is float or tb is float:
            if ta is float and tb is float:
                if float_bits(a,64)==float_bits(b,64): return a
                return z3.If(c,fpv(a,size*8),fpv(b,size*8))
            if ta is int or tb is int:
                return z3.If(c,fpv(self.tofp(a,size*8),size*8),fpv(self.tofp(b,size*8),size*8))
        if ta is int and tb is int:
            if a==b: return a
            return z3.If(c,z3.BitVecVal(a,size*8),z3.BitVecVal(b,size*8))
        if (ta is int and isinstance(b,(z3.FPRef,Fraction))): return self.ite(c,self.tofp(a,size*8),b)
        if (tb is int and isinstance(a,(z3.FPRef,Fraction))): return self.ite(c,a,self.tofp(b,size*8))
        if self.mode=='real':
            ra=is_sym(a) and z3.is_real(a); rb=is_sym(b) and z3.is_real(b)
            if ra and not rb: return self.ite(c,a,self.tofp(b,size*8))
            if rb and not ra: return self.ite(c,self.tofp(a,size*8),b)
        if isinstance(a,z3.FPRef) and isinstance(b,z3.BitVecRef): b=self.tofp(b,size*8)
        if isinstance(b,z3.FPRef) and isinstance(a,z3.BitVecRef): a=self.tofp(a,size*8)
        return self.ite(c,a,b)
    def ite_ptr(self,c,a,b):
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            if a.same(b): return a
            if a.o==b.o:
                return self.mk_off(a.o,z3.If(c,bvv(a.off,64),bvv(b.off,64)),a,b)
        alts=[]
        for cc,p in (a.alts if isinstance(a,PtrU) else [(True,a)]): alts.append((zand(c,cc),p))
        nc=znot(c)
        for cc,p in (b.alts if isinstance(b,PtrU) else [(True,b)]):
            g=zand(nc,cc)
            for i,(g2,q) in enumerate(alts):
                if q.same(p): alts[i]=(zor(g2,g),q); break
                if q.o==p.o:
                    alts[i]=(zor(g2,g),self.mk_off(p.o,z3.If(g2,bvv(q.off,64),bvv(p.off,64)),q,p)); break
            else: alts.append((g,p))
        if len(alts)==1: return alts[0][1]
        return PtrU(alts)
    def mk_off(self,o,expr,a,b):
        """offset known to be in union of two residue classes"""
        def cg(p): return (p.off,0) if isinstance(p.off,int) else (p.c,p.g)
        (c1,g1),(c2,g2)=cg(a),cg(b)
        g=math.gcd(math.gcd(g1,g2),abs(c1-c2)) or 0
        if g==0: g=1
        return Ptr(o,expr,c1%g,g)
    def merge_states(self,block_live,s1,r1,s2,r2,tys=None):
        """merge state 2 into 1; returns (state,regs) or None"""
        p1,p2=s1.pc,s2.pc
        n=0; m=min(len(p1),len(p2))
        while n<m and (p1[n] is p2[n] or p1[n].eq(p2[n])): n+=1
        t1=p1[n:]; t2=p2[n:]
        if s1.ghost!=s2.ghost and any(s1.ghost.get(k) is not s2.ghost.get(k) and s1.ghost.get(k)!=s2.ghost.get(k) for k in set(s1.ghost)|set(s2.ghost)): return None
        c=zand(*t1)
        c2=zand(*t2)
        if c is True or c2 is True: 
            # one subsumes: not disjoint; cannot use as selector unless other is False
            if c is True and c2 is True: return None
            # use negation of the other
            if c is True: c=znot(c2)
        try:
            regs={}
            for k in block_live:
                a=r1.get(k,UNDEF); b=r2.get(k,UNDEF)
                if a is b: regs[k]=a; continue
                regs[k]=self.merge_reg(c,a,b,tys[k] if tys else None)
            mem={}
            for oid in set(s1.mem)|set(s2.mem):
                o1=s1.mem.get(oid); o2=s2.mem.get(oid)
                if o1 is o2: mem[oid]=o1; continue
                if o1 is None or o2 is None:
                    o=o1 or o2
                    if o.kind=='freed?': continue
                    # object exists on one path only: keep when allocated there; when freed on the other path keep too
                    mem[oid]=o; continue
                mem[oid]=self.merge_obj(c,o1,o2)
        except Unsupported as e:
            return None
        st=State(); st.mem=mem; st.ghost=s1.ghost
        if len(t1)==1 and len(t2)==1 and z3.is_bool(t1[0]) and (znot(t1[0]).eq(t2[0])): st.pc=p1[:n]
        else:
            # factor common trailing facts
            ids2={x.get_id() for x in t2}
            common=[x for x in t1 if x.get_id() in ids2]
            if common:
                cid={x.get_id() for x in common}
                t1=[x for x in t1 if x.get_id() not in cid]; t2=[x for x in t2 if x.get_id() not in cid]
            a=zand(*t1); b=zand(*t2)
            if len(t1)==1 and len(t2)==1 and znot(t1[0]).eq(t2[0]): d=True
            elif len(t1)>=1 and len(t2)>=1 and znot(t1[0]).eq(t2[0]):
                # (c & A) | (!c & B)  ==  (c=>A) & (!c=>B)
                A=zand(*t1[1:]); Bq=zand(*t2[1:])
                d=None
                extra=[]
                if A is not True: extra.append(z3.Implies(t1[0],A))
                if Bq is not True: extra.append(z3.Implies(t2[0],Bq))
                st.pc=p1[:n]+tuple(common)+tuple(extra)
            else: d=zor(a,b)
            if d is not None:
                st.pc=p1[:n]+tuple(common)+(() if d is True else (d,))
        st.model=s1.model or s2.model
        return st,regs
    def merge_reg(self,c,a,b,ty):
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a,tuple) and isinstance(b,tuple):
            tl=ty.elems if ty.kind=='struct' else [ty.elems[0]]*len(a)
            return tuple(self.merge_reg(c,x,y,t) for x,y,t in zip(a,b,tl))
        return self.ite_val(c,a,b,ty)
    def merge_obj(self,c,o1,o2):
        o=o1.clone(); o.owner=None
        if o1.arr is not None or o2.arr is not None:
            if o1.arr is None or o2.arr is None: raise Unsupported('arr merge')
            o.arr=o1.arr if o1.arr.eq(o2.arr) else z3.If(c,o1.arr,o2.arr)
        if not isinstance(o1.size,int) or not isinstance(o2.size,int):
            pass
        c1,c2=o1.cells,o2.cells
        cells=o.cells
        keys=set(c1)|set(c2)
        conflict=False
        for k in keys:
            a=c1.get(k); b=c2.get(k)
            if a is b: continue
            if a is not None and b is not None and a[0]==b[0]:
                if a[1] is not b[1]: cells[k]=(a[0],self.ite_ty(c,a[1],b[1],a[0]))
                continue
            conflict=True; break
        if not conflict: return o
        # different cell structure: byte-align by gathering
        cells=dict(); o.cells=cells
        done=set()
        tmp=State(); tmp.mem={o1.id:o1}
        regions=self.regions(c1,c2)
        for (lo,hi) in regions:
            k1=[(k,v) for k,v in c1.items() if lo<=k<hi]; k2=[(k,v) for k,v in c2.items() if lo<=k<hi]
            if len(k1)==1 and len(k2)==1 and k1[0][0]==k2[0][0] and k1[0][1][0]==k2[0][1][0]:
                cells[lo]=(hi-lo,self.ite_ty(c,k1[0][1][1],k2[0][1][1],hi-lo)); continue
            if not k1 or not k2:
                ks=k1 or k2; od=o2 if k1 else o1
                for k,(s,v) in ks:
                    if od.default=='zero': w=NULL if isinstance(v,(Ptr,PtrU)) else 0
                    elif isinstance(v,(Ptr,PtrU)) or v is UNDEF: w=v
                    else: w=self.fresh(v.sort() if is_sym(v) else (z3.BitVecSort(8*s) if isinstance(v,int) else self.fsort(8*s)),'uninit')
                    cells[k]=(s,self.ite_ty(c,v,w,s) if k1 else self.ite_ty(c,w,v,s))
                continue
            # mixed: bytes
            b1=self.region_bytes(o1,lo,hi); b2=self.region_bytes(o2,lo,hi)
            for i in range(hi-lo):
                if b1[i] is None and b2[i] is None: continue
                x=b1[i] if b1[i] is not None else (0 if o1.default=='zero' else self.fresh(z3.BitVecSort(8),'uninit'))
                y=b2[i] if b2[i] is not None else (0 if o2.default=='zero' else self.fresh(z3.BitVecSort(8),'uninit'))
                cells[lo+i]=(1,self.ite_ty(c,x,y,1))
        return o
    def regions(self,c1,c2):
        iv=sorted([(k,k+v[0]) for k,v in c1.items()]+[(k,k+v[0]) for k,v in c2.items()])
        out=[]
        for lo,hi in iv:
            if out and lo<out[-1][1]: out[-1][1]=max(out[-1][1],hi)
            else: out.append([lo,hi])
        return out
    def region_bytes(self,o,lo,hi):
        r=[None]*(hi-lo)
        for k,(s,v) in o.cells.items():
            if lo<=k<hi:
                for i,b in enumerate(self.bytes_of(v,s)): r[k-lo+i]=b
        return r
    # ---------------------------------------------------------------- constants / operands
    def cval(self,st,c):
        k=c.k; ty=c.ty
        if k=='int':
            if ty.bits==1: return bool(c.v)
            return c.v
        if k=='fp': return self.fconst(c.v)
        if k=='null': return NULL
        if k=='undef':
            if ty.kind=='struct': return tuple(self.cval(st,Const('undef',e,None)) for e in ty.elems)
            if ty.kind in('array','vector'): return tuple(self.cval(st,Const('undef',ty.elems[0],None)) for _ in range(ty.n))
            return UNDEF
        if k=='zero':
            return self.zeroval(ty)
        if k=='func': return self.fn_ptr(c.v)
        if k=='global': return self.global_ptr(st,c.v)
        if k=='agg': return tuple(self.cval(st,x) for x in c.v)
        if k=='bytes': return tuple(c.v)
        if k=='expr':
            op,ops,x=c.v
            if op=='gep':
                return self.gep(st,x,[self.cval(st,o) for o in ops],[o.ty for o in ops[1:]])
            vs=[self.cval(st,o) for o in ops]
            if op=='inttoptr': return self.toptr(st,vs[0])
            if op=='ptrtoint': return self.tobv(vs[0],64)&mask(ty.bits)
            if op in('bitcast','addrspacecast'): return vs[0]
            if op in('add','sub','mul','and','or','xor','shl','lshr','ashr'): return self.ibin(op,vs[0],vs[1],ty.bits)
            if op=='trunc': return self.trunc(vs[0],ops[0].ty.bits,ty.bits)
            if op=='icmp': return self.icmp(st,x,vs[0],vs[1],ops[0].ty)
            raise Unsupported('constexpr '+str(op))
        raise Unsupported('const '+k)
    def zeroval(self,ty):
        k=ty.kind
        if k=='int': return False if ty.bits==1 else 0
        if k=='fp': return self.fconst(0.0)
        if k=='ptr': return NULL
        if k=='struct': return tuple(self.zeroval(e) for e in ty.elems)
        if k in('array','vector'): return tuple(self.zeroval(ty.elems[0]) for _ in range(ty.n))
        raise Unsupported('zero')
    def fn_ptr(self,fn):
        i=self.fobj.get(fn.name)
        if i is None:
            i=self.next_id; self.next_id+=1; self.fobj[fn.name]=i; self.idfn[i]=fn
            self.baseobj[i]=self.next_base; self.next_base+=64
        return Ptr(i,0)
    def val(self,fr,st,o):
        if isinstance(o,Reg): return fr.regs[o.i]
        return self.cval(st,o)
    # ---------------------------------------------------------------- arithmetic
    def ibin(self,op,a,b,bits,st=None,inst=None):
        if bits==1:
            a=self.tobool(a); b=self.tobool(b)
            if op=='and': return zand(a,b)
            if op=='or': return zor(a,b)
            if op in('xor','add','sub'):
                if isinstance(a,bool) and isinstance(b,bool): return a!=b
                if a is True: return znot(b)
                if b is True: return znot(a)
                if a is False: return b
                if b is False: return a
                return z3.Xor(a,b)
            if op=='mul': return zand(a,b)
            raise Unsupported('i1 '+op)
        a=self.tobv(a,bits); b=self.tobv(b,bits)
        ca=isinstance(a,int); cb=isinstance(b,int); M=mask(bits)
        if ca and cb:
            if op=='add': return (a+b)&M
            if op=='sub': return (a-b)&M
            if op=='mul': return (a*b)&M
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&M if b<bits else 0
            if op=='lshr': return a>>b if b<bits else 0
            if op=='ashr': return (sgn(a,bits)>>min(b,bits-1))&M
            if op in('udiv','urem','sdiv','srem'):
                if b==0: raise PathDead()
                if op=='udiv': return a//b
                if op=='urem': return a%b
                sa,sb=sgn(a,bits),sgn(b,bits); q=abs(sa)//abs(sb)
                if (sa<0)!=(sb<0): q=-q
                return (q if op=='sdiv' else sa-q*sb)&M
        # identities
        if cb:
            if b==0:
                if op in('add','sub','or','xor','shl','lshr','ashr'): return a
                if op in('mul','and'): return 0
            if b==1 and op in('mul','udiv','sdiv'): return a
            if op=='and' and b==M: return a
        if ca:
            if a==0:
                if op in('add','or','xor'): return b
                if op in('mul','and','shl','lshr','ashr'): return 0
            if a==1 and op=='mul': return b
            if op=='and' and a==M: return b
        A=bvv(a,bits); B=bvv(b,bits)
        if op=='add': return A+B
        if op=='sub':
            if A.eq(B): return 0
            return A-B
        if op=='mul': return A*B
        if op=='and': return A&B
        if op=='or': return A|B
        if op=='xor': return A^B
        if op=='shl': return A<<B
        if op=='lshr': return z3.LShR(A,B)
        if op=='ashr': return A>>B
        if op=='udiv': return z3.UDiv(A,B)
        if op=='urem': return z3.URem(A,B)
        if op=='sdiv': return A/B
        if op=='srem': return z3.SRem(A,B)
        raise Unsupported(op)
    def tobool(self,v):
        if isinstance(v,bool): return v
        if isinstance(v,int): return bool(v&1)
        if v is UNDEF: return self.fresh(z3.BoolSort(),'undef')
        if isinstance(v,z3.BoolRef):
            if z3.is_true(v): return True
            if z3.is_false(v): return False
            return v
        if isinstance(v,z3.BitVecRef): return z3.Extract(0,0,v)==z3.BitVecVal(1,1)
        raise Unsupported('tobool %r'%(v,))
    def trunc(self,a,f,t):
        a=self.tobv(a,f)
        if isinstance(a,int): return bool(a&1) if t==1 else a&mask(t)
        if t==1: return z3.simplify(z3.Extract(0,0,a)==z3.BitVecVal(1,1))
        # trunc of zext shortcut
        if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ZERO_EXT,z3.Z3_OP_SIGN_EXT):
            x=a.arg(0)
            if x.size()==t: return x
            if x.size()>t: return z3.Extract(t-1,0,x)
        return z3.Extract(t-1,0,a)
    def icmp(self,st,p,a,b,ty):
        if ty.kind=='ptr': return self.pcmp(st,p,a,b)
        if ty.kind=='vector': return tuple(self.icmp(st,p,x,y,ty.elems[0]) for x,y in zip(a,b))
        if isinstance(a,(Ptr,PtrU)) and isinstance(b,(Ptr,PtrU)): return self.pcmp(st,p,a,b)
        bits=ty.bits
        if bits==1:
            a=self.tobool(a); b=self.tobool(b)
            if isinstance(a,bool) and isinstance(b,bool): r=(a==b)
            elif a is True: r=b
            elif b is True: r=a
            elif a is False: r=znot(b)
            elif b is False: r=znot(a)
            else: r=(a==b)
            if p=='eq': return r
            if p=='ne': return znot(r)
            a=bvv(self.tobv(a,1) if not isinstance(a,bool) else int(a),1); b=bvv(self.tobv(b,1) if not isinstance(b,bool) else int(b),1)
        else:
            a=self.tobv(a,bits); b=self.tobv(b,bits)
        if isinstance(a,int) and isinstance(b,int):
            if p=='eq': return a==b
            if p=='ne': return a!=b
            if p[0]=='s': a=sgn(a,bits); b=sgn(b,bits)
            q=p[1:]
            return a<b if q=='lt' else a<=b if q=='le' else a>b if q=='gt' else a>=b
        # zext narrow comparison: (zext x) cmp const
        A=bvv(a,bits); B=bvv(b,bits)
        if A.eq(B): return p in('eq','uge','ule','sge','sle')
        if p=='eq': r=self._bool_unwrap(A,B); return r if r is not None else A==B
        if p=='ne':
            r=self._bool_unwrap(A,B)
            return znot(r) if r is not None else A!=B
        if p=='ult': return z3.ULT(A,B)
        if p=='ule': return z3.ULE(A,B)
        if p=='ugt': return z3.UGT(A,B)
        if p=='uge': return z3.UGE(A,B)
        if p=='slt': return A<B
        if p=='sle': return A<=B
        if p=='sgt': return A>B
        return A>=B
    def _bool_unwrap(self,A,B):
        """If(c,1,0)==k  ->  c / not c"""
        for x,y in((A,B),(B,A)):
            if z3.is_bv_value(y) and z3.is_app_of(x,z3.Z3_OP_ITE):
                t,e=x.arg(1),x.arg(2)
                if z3.is_bv_value(t) and z3.is_bv_value(e):
                    yt=t.as_long()==y.as_long(); ye=e.as_long()==y.as_long()
                    if yt and ye: return True
                    if yt: return x.arg(0)
                    if ye: return znot(x.arg(0))
                    return False
        return None
    def pcmp(self,st,p,a,b):
        a=self.toptr(st,a); b=self.toptr(st,b)
        if a is UNDEF or b is UNDEF: return self.fresh(z3.BoolSort(),'undef')
        if isinstance(a,PtrU):
            r=False
            return zor(*[zand(c,self.pcmp(st,p,q,b)) for c,q in a.alts])
        if isinstance(b,PtrU): return zor(*[zand(c,self.pcmp(st,p,a,q)) for c,q in b.alts])
        if a.o==b.o:
            x,y=a.off,b.off
            if isinstance(x,int) and isinstance(y,int):
                x&=mask(64); y&=mask(64)
                sx,sy=sgn(x,64),sgn(y,64)
                return {'eq':x==y,'ne':x!=y,'ult':sx<sy,'ule':sx<=sy,'ugt':sx>sy,'uge':sx>=sy,'slt':sx<sy,'sle':sx<=sy,'sgt':sx>sy,'sge':sx>=sy}[p]
            X=bvv(x,64);Y=bvv(y,64)
            if X.eq(Y): return p in('eq','uge','ule','sge','sle')
            return {'eq':lambda:X==Y,'ne':lambda:X!=Y,'ult':lambda:X<Y,'ule':lambda:X<=Y,'ugt':lambda:X>Y,'uge':lambda:X>=Y,'slt':lambda:X<Y,'sle':lambda:X<=Y,'sgt':lambda:X>Y,'sge':lambda:X>=Y}[p]()
        if p=='eq': return False
        if p=='ne': return True
        x,y=self.ptr_int(a),self.ptr_int(b)
        if isinstance(x,int) and isinstance(y,int):
            return {'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y,'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y}[p]
        X=bvv(x,64);Y=bvv(y,64)
        return {'ult':lambda:z3.ULT(X,Y),'ule':lambda:z3.ULE(X,Y),'ugt':lambda:z3.UGT(X,Y),'uge':lambda:z3.UGE(X,Y)}[p]()
    # float
    def fbin(self,op,a,b,bits):
        a=self.tofp(a,bits); b=self.tofp(b,bits)
        if self.mode=='real':
            if isinstance(a,Fraction) and isinstance(b,Fraction):
                if op=='fadd': return a+b
                if op=='fsub': return a-b
                if op=='fmul': return a*b
                if op=='fdiv' and b!=0: return a/b
            if op=='fadd':
                if isinstance(a,Fraction) and a==0: return b
                if isinstance(b,Fraction) and b==0: return a
            if op=='fsub' and isinstance(b,Fraction) and b==0: return a
            if op=='fmul':
                for x,y in((a,b),(b,a)):
                    if isinstance(x,Fraction) and x==1: return y
                    if isinstance(x,Fraction) and x==0: return x
            A=self.zreal(a);B=self.zreal(b)
            if op=='fadd': return A+B
            if op=='fsub': return A-B
            if op=='fmul': return A*B
            if op=='fdiv': return A/B
            if op=='frem': return self.getuf('fmod',z3.RealSort(),z3.RealSort(),z3.RealSort())(A,B)
            raise Unsupported(op)
        if isinstance(a,float) and isinstance(b,float):
            try:
                if op=='fadd': r=a+b
                elif op=='fsub': r=a-b
                elif op=='fmul': r=a*b
                elif op=='fdiv':
                    if b==0:
                        if a==0 or a!=a: r=math.nan
                        else: r=math.copysign(math.inf,a)*math.copysign(1.0,b)
                    else: r=a/b
                elif op=='frem': r=math.fmod(a,b)
            except (OverflowError,ValueError): r=math.nan
            return f32(r) if bits==32 else r
        A=fpv(a,bits);B=fpv(b,bits)
        if op=='fadd': return z3.fpAdd(RNE,A,B)
        if op=='fsub': return z3.fpSub(RNE,A,B)
        if op=='fmul': return z3.fpMul(RNE,A,B)
        if op=='fdiv': return z3.fpDiv(RNE,A,B)
        if op=='frem':
            so=FS[bits]; return self.getuf('fmod%d'%bits,so,so,so)(A,B)
        raise Unsupported(op)
    def fcmp(self,p,a,b,bits):
        a=self.tofp(a,bits); b=self.tofp(b,bits)
        if p=='true': return True
        if p=='false': return False
        if self.mode=='real':
            if p=='ord': return True
            if p=='uno': return False
            q=p[1:]
            if isinstance(a,Fraction) and isinstance(b,Fraction):
                return {'eq':a==b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b,'ne':a!=b}[q]
            A=self.zreal(a);B=self.zreal(b)
            if A.eq(B): return q in('eq','ge','le')
            return {'eq':lambda:A==B,'gt':lambda:A>B,'ge':lambda:A>=B,'lt':lambda:A<B,'le':lambda:A<=B,'ne':lambda:A!=B}[q]()
        if isinstance(a,float) and isinstance(b,float):
            un=(a!=a or b!=b)
            if p=='ord': return not un
            if p=='uno': return un
            if un: return p[0]=='u'
            q=p[1:]
            return {'eq':a==b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b,'ne':a!=b}[q]
        A=fpv(a,bits);B=fpv(b,bits)
        un=zor(self.isnan(a,bits),self.isnan(b,bits))
        if p=='uno': return un
        if p=='ord': return znot(un)
        q=p[1:]
        r={'eq':lambda:z3.fpEQ(A,B),'gt':lambda:z3.fpGT(A,B),'ge':lambda:z3.fpGEQ(A,B),'lt':lambda:z3.fpLT(A,B),'le':lambda:z3.fpLEQ(A,B),'ne':lambda:z3.And(z3.Not(z3.fpEQ(A,B)),znot(un) if un is not False else True)}[q]()
        if p=='une': return z3.Not(z3.fpEQ(A,B))
        if p=='one': return zand(z3.Not(z3.fpEQ(A,B)),znot(un))
        if p[0]=='u': return zor(un,r)
        return r
    def isnan(self,v,bits):
        if isinstance(v,float): return v!=v
        return z3.fpIsNaN(v)
    def fp2int(self,a,fb,tb,signed,st=None):
        a=self.tofp(a,fb)
        if isinstance(a,float):
            if a!=a or a in(math.inf,-math.inf): return self.fresh(z3.BitVecSort(tb),'fp2int')
            t=int(a)
            lo,hi=(-(1<<(tb-1)),(1<<(tb-1))-1) if signed else (0,(1<<tb)-1)
            if lo<=t<=hi: return t&mask(tb)
            return self.fresh(z3.BitVecSort(tb),'fp2int')
        if self.mode=='real':
            if isinstance(a,Fraction):
                t=abs(a.numerator)//a.denominator
                if a<0: t=-t
                return t&mask(tb)
            x=self.zreal(a)
            if st is not None:
                B=ival.var_bounds(st.pc); r=ival.term(x,B,{})
                if r[0] is not None and r[0]>=0: u=ival.unique_floor(x,st.pc)
                elif r[2] is not None and r[2]<=0:
                    u=ival.unique_floor(-x,st.pc); u=None if u is None else -u
                else: u=None
                if u is not None: return u&mask(tb)
            t=z3.If(x>=0,z3.ToInt(x),-z3.ToInt(-x))
            return z3.Int2BV(t,tb)
        so=FS[fb]
        lo,hi=(-(1<<(tb-1)),(1<<(tb-1))) if signed else (0,(1<<tb))
        inr=z3.And(z3.fpGT(a,fpv(float(lo)-1.0 if fb==64 and tb<=32 else float(lo)-(1.0 if tb<=16 else 0.0),fb)) if not(signed and not(fb==64 and tb<=32 or tb<=16)) else z3.fpGEQ(a,fpv(float(lo),fb)),
                   z3.fpLT(a,fpv(float(hi),fb)))
        if not signed: inr=z3.And(z3.fpGT(a,fpv(-1.0,fb)),z3.fpLT(a,fpv(float(hi),fb)))
        r=z3.fpToSBV(z3.RTZ(),a,z3.BitVecSort(tb)) if signed else z3.fpToUBV(z3.RTZ(),a,z3.BitVecSort(tb))
        return z3.If(inr,r,self.fresh(z3.BitVecSort(tb),'fp2int'))
    def int2fp(self,a,ib,fb,signed):
        a=self.tobv(a,ib) if ib!=1 else a
        if ib==1:
            a=self.tobool(a)
            if isinstance(a,bool): a=int(a); ib=2 if not signed else 1
            else:
                one=self.fconst(-1.0 if signed else 1.0)
                return self.ite_ty(a,one,self.fconst(0.0),fb//8)
        if isinstance(a,int):
            v=sgn(a,ib) if signed else a
            if self.mode=='real': return Fraction(v)
            # int -> float rounding: python float(v) is correctly rounded to double; f32 needs single rounding
            if fb==64: return float(v)
            return self.int_to_f32(v)
        if self.mode=='real':
            return z3.ToReal(z3.BV2Int(a,is_signed=signed))
        return z3.fpSignedToFP(RNE,a,FS[fb]) if signed else z3.fpUnsignedToFP(RNE,a,FS[fb])
    def int_to_f32(self,v):
        if abs(v)<(1<<53): return f32(float(v))
        r=z3.simplify(z3.fpSignedToFP(RNE,z3.BitVecVal(v,80),FS[32]))
        return bits_float(z3.simplify(z3.fpToIEEEBV(r)).as_long(),32)
    def fpcast(self,a,fb,tb):
        a=self.tofp(a,fb)
        if self.mode=='real': return a
        if isinstance(a,float): return f32(a) if tb==32 else a
        return z3.fpFPToFP(RNE,a,FS[tb])
    # ---------------------------------------------------------------- gep/load/store
    def gep(self,st,sty,vals,ityps):
        p=self.toptr(st,vals[0])
        idx=vals[1:]
        const=0; sym=None; g=0
        ty=sty
        for n,(iv,it) in enumerate(zip(idx,ityps)):
            if n==0: scale=ty.size
            elif ty.kind=='struct':
                k=iv if isinstance(iv,int) else iv
                const+=ty.offs[k]; ty=ty.elems[k]; continue
            else:
                ty=ty.elems[0]; scale=ty.size
            iv=self.tobv(iv,it.bits)
            if isinstance(iv,int): const+=sgn(iv,it.bits)*scale
            else:
                if it.bits<64: iv=z3.SignExt(64-it.bits,iv)
                elif it.bits>64: iv=z3.Extract(63,0,iv)
                t=iv if scale==1 else iv*z3.BitVecVal(scale,64)
                sym=t if sym is None else sym+t
                g=math.gcd(g,scale)
        return self.ptr_add(p,const,sym,g)
    def ptr_add(self,p,const,sym=None,g=0):
        if p is UNDEF: return UNDEF
        if isinstance(p,PtrU): return PtrU([(c,self.ptr_add(q,const,sym,g)) for c,q in p.alts])
        if sym is None:
            if const==0: return p
            if isinstance(p.off,int): return Ptr(p.o,p.off+const)
            return Ptr(p.o,z3.simplify(p.off+z3.BitVecVal(const,64)),(p.c+const)%p.g if p.g else 0,p.g)
        if isinstance(p.off,int):
            c=p.off+const
            return Ptr(p.o,z3.simplify(sym+z3.BitVecVal(c,64)),c%g,g)
        g2=math.gcd(g,p.g)
        return Ptr(p.o,z3.simplify(p.off+sym+z3.BitVecVal(const,64)),(p.c+const)%g2,g2)
    def check_access(self,st,p,size,inst,what):
        """null/bounds obligations for a single Ptr"""
        if p.o==0:
            self.oblige(st,False,'%s of null/invalid pointer'%what,inst,'memory'); 
        o=st.mem.get(p.o)
        if o is None:
            if p.o in self.idfn: raise Unsupported('data access to function')
            self.oblige(st,False,'%s of dead object (use after free/return)'%what,inst,'memory')
        if isinstance(p.off,int) and isinstance(o.size,int):
            if p.off<0 or p.off+size>o.size:
                self.oblige(st,False,'%s out of bounds of %s (offset %d size %d of %d)'%(what,o.name,p.off,size,o.size),inst,'memory')
            return o
        sz=bvv(o.size,64)
        off=bvv(p.off,64)
        if isinstance(o.size,int):
            lim=o.size-size
            if lim<0: self.oblige(st,False,'%s out of bounds of %s'%(what,o.name),inst,'memory')
            c=z3.ULE(off,z3.BitVecVal(lim,64))
        else:
            c=z3.And(z3.ULE(off,sz),z3.ULE(z3.BitVecVal(size,64),sz-off))
        key=(c.get_id())
        # skip when already in pc
        for x in st.pc:
            if x.eq(c): return o
        self.oblige(st,c,'%s in bounds of %s'%(what,o.name),inst,'memory')
        return st.mem[p.o]
    def cand_offs(self,st,o,p,size):
        g=p.g or 1
        start=p.c%g
        n=(o.size-size-start)//g+1
        if n>self.opts.get('max_cands',4096): raise Unsupported('symbolic offset with %d candidates in %s'%(n,o.name))
        offs=list(range(start,o.size-size+1,g))
        if len(offs)>1 and len(offs)<=64 or len(offs)>64:
            # interval narrowing through the solver when pc constrains the offset
            if len(offs)>8 and self.opts.get('narrow',True):
                s=z3.Solver(); s.set('rlimit',self.feas_rlimit); s.set('timeout',2000)
                s.add(*self.axioms); s.add(*st.pc)
                keep=[]
                lo,hi=0,len(offs)
                # binary narrowing of upper bound
                def sat(a,b):
                    s.push(); s.add(z3.UGE(p.off,z3.BitVecVal(offs[a],64)),z3.ULE(p.off,z3.BitVecVal(offs[b],64)))
                    r=s.check(); s.pop(); return r!=z3.unsat
                a,b=0,len(offs)-1
                # find largest feasible
                l,h=0,len(offs)-1
                while l<h:
                    m=(l+h+1)//2
                    if sat(m,h): l=m
                    else: h=m-1
                b=l
                l,h=0,b
                while l<h:
                    m=(l+h)//2
                    if sat(l,m): h=m
                    else: l=m+1
                offs=offs[l:b+1]
        return offs
    def mux(self,off,offs,vals,size):
        """balanced selection tree"""
        if len(offs)==1: return vals[0]
        m=len(offs)//2
        a=self.mux(off,offs[:m],vals[:m],size); b=self.mux(off,offs[m:],vals[m:],size)
        return self.ite_ty(z3.ULT(off,z3.BitVecVal(offs[m],64)),a,b,size)
    def load(self,st,p,ty,inst=None):
        k=ty.kind
        if k=='struct': return tuple(self.load(st,self.ptr_add(self.toptr(st,p),of),e,inst) for e,of in zip(ty.elems,ty.offs))
        if k in('array','vector'): return tuple(self.load(st,self.ptr_add(self.toptr(st,p),i*ty.elems[0].size),ty.elems[0],inst) for i in range(ty.n))
        p=self.toptr(st,p)
        if p is UNDEF:
            self.oblige(st,False,'load through undefined pointer',inst,'memory')
        if isinstance(p,PtrU):
            r=None
            res=[]
            for c,q in p.alts:
                f,_=self.feasible(st,c)
                if not f: continue
                s2=st.fork(); s2.pc=st.pc+((c,) if c is not True else ())
                s2.model=None
                n0=len(self.obls)
                try: v=self.load(s2,q,ty,inst)
                except PathDead: 
                    self.assume(st,znot(c)); continue
                res.append((c,v))
                st.mem.update({k2:v2 for k2,v2 in s2.mem.items() if k2 not in st.mem})
            if not res: raise PathDead()
            r=res[-1][1]
            for c,v in reversed(res[:-1]): r=self.ite_val(c,v,r,ty)
            return r
        size=ty.store
        o=self.check_access(st,p,size,inst,'load')
        if o.arr is not None: return self.arr_load(st,o,p,ty)
        if isinstance(p.off,int):
            v=self.read_raw(st,p.o,p.off,size,ty)
        else:
            if not isinstance(o.size,int): return self.arr_load(st,self.make_arr(st,o,ty),p,ty)
            offs=self.cand_offs(st,o,p,size)
            if not offs: raise PathDead()
            vals=[self.conv(st,self.read_raw(st,p.o,x,size,ty),ty) for x in offs]
            v=self.mux(p.off,offs,vals,size)
        return self.conv(st,v,ty)
    def ite_val(self,c,a,b,ty):
        if isinstance(a,tuple) and isinstance(b,tuple): return self.merge_reg(c,a,b,ty)
        if ty.kind in('int','fp'): return self.ite_ty(c,a,b,max(1,ty.bits//8)) if not(ty.kind=='int' and ty.bits==1) else self.ite(c,a,b)
        return self.ite(c,a,b)
    def conv(self,st,v,ty):
        k=ty.kind
        if k=='int':
            if ty.bits==1:
                return self.tobool(v)
            if isinstance(v,int): return v&mask(ty.bits)
            if isinstance(v,z3.BitVecRef): return v if v.size()==ty.bits else z3.Extract(ty.bits-1,0,v)
            if ty.bits==64 and isinstance(v,(Ptr,PtrU)): return v
            if isinstance(v,(Blob,)) : return v
            if v is UNDEF: return v
            if isinstance(v,(float,z3.FPRef,Fraction)) or (is_sym(v) and z3.is_real(v)):
                return Blob([(ty.store,v)])
            return self.tobv(v,ty.bits)
        if k=='fp':
            return self.tofp(v if not(isinstance(v,Blob) and len(v.pieces)==1) else v.pieces[0][1],ty.bits)
        if k=='ptr': return self.toptr(st,v)
        return v
    def store(self,st,p,v,ty,inst=None):
        k=ty.kind
        if k=='struct':
            p=self.toptr(st,p)
            for e,of,x in zip(ty.elems,ty.offs,v): self.store(st,self.ptr_add(p,of),x,e,inst)
            return
        if k in('array','vector'):
            p=self.toptr(st,p)
            for i,x in enumerate(v): self.store(st,self.ptr_add(p,i*ty.elems[0].size),x,ty.elems[0],inst)
            return
        p=self.toptr(st,p)
        if p is UNDEF: self.oblige(st,False,'store through undefined pointer',inst,'memory')
        v=self.mem_val(v,ty)
        size=ty.store
        if isinstance(p,PtrU):
            for c,q in p.alts:
                f,_=self.feasible(st,c)
                if not f: continue
                s2=st.fork(); s2.pc=st.pc+((c,) if c is not True else ())
                s2.model=None
                try: self.check_access(s2,q,size,inst,'store')
                except PathDead: self.assume(st,znot(c)); continue
                o=st.mem.get(q.o)
                if o.arr is not None or not isinstance(q.off,int):
                    old=self.load(s2,q,ty,inst)
                    self._store1(st,q,self.ite_ty(c,v,old,size),ty)
                else:
                    old=self.conv(st,self.read_raw(st,q.o,q.off,size,ty),ty) if k!='int' or ty.bits>1 else self.read_raw(st,q.o,q.off,size,ty)
                    self.put(self.wobj(st,q.o),q.off,size,self.ite_ty(c,v,old,size))
            return
        self.check_access(st,p,size,inst,'store')
        self._store1(st,p,v,ty)
    def _store1(self,st,p,v,ty):
        size=ty.store
        o=self.wobj(st,p.o)
        if o.arr is not None: self.arr_store(st,o,p,v,ty); return
        if isinstance(p.off,int): self.put(o,p.off,size,v); return
        if not isinstance(o.size,int):
            self.make_arr(st,o,ty); self.arr_store(st,self.wobj(st,p.o),p,v,ty); return
        offs=self.cand_offs(st,o,p,size)
        for x in offs:
            old=self.conv(st,self.read_raw(st,p.o,x,size,ty),ty) if not (ty.kind=='int' and ty.bits==1) else self.read_raw(st,p.o,x,size,ty)
            self.put(self.wobj(st,p.o),x,size,self.ite_ty(p.off==z3.BitVecVal(x,64),v,old,size))
    # array-backed objects (symbolic length)
    def make_arr(self,st,o,ty):
        o=self.wobj(st,o.id)
        if o.cells: raise Unsupported('array conversion of initialised object')
        so=z3.BitVecSort(ty.bits) if ty.kind=='int' else self.fsort(ty.bits)
        o.es=ty.store; o.ety=ty
        o.arr=z3.K(B64,z3.BitVecVal(0,ty.bits) if ty.kind=='int' else fpv(0.0,ty.bits)) if o.default=='zero' else self.fresh(z3.ArraySort(B64,so),'arr')
        return o
    def arr_idx(self,o,p):
        es=o.es
        if isinstance(p.off,int):
            if p.off%es: raise Unsupported('misaligned array access')
            return z3.BitVecVal(p.off//es,64)
        if es==1: return p.off
        if p.g%es or p.c%es: raise Unsupported('misaligned symbolic array access')
        off=p.off
        # strip multiplication structurally: simplify (es*x + c)/es
        x=self.div_exact(off,es)
        return x
    def div_exact(self,e,es):
        if z3.is_bv_value(e):
            v=sgn(e.as_long(),64)
            if v%es==0: return z3.BitVecVal(v//es,64)
            return None
        d=e.decl().kind()
        if d==z3.Z3_OP_BADD:
            xs=[self.div_exact(a,es) for a in e.children()]
            if all(x is not None for x in xs):
                r=xs[0]
                for x in xs[1:]: r=r+x
                return r
        if d==z3.Z3_OP_BMUL:
            ch=e.children()
            for i,a in enumerate(ch):
                if z3.is_bv_value(a):
                    v=sgn(a.as_long(),64)
                    if v%es==0:
                        r=z3.BitVecVal(v//es,64)
                        for j,b in enumerate(ch):
                            if j!=i: r=r*b
                        return z3.simplify(r)
        if d==z3.Z3_OP_ITE:
            a=self.div_exact(e.arg(1),es); b=self.div_exact(e.arg(2),es)
            if a is not None and b is not None: return z3.If(e.arg(0),a,b)
        if d==z3.Z3_OP_CONCAT:
            # zero low bits: Concat(x, 0...)
            sh=es.bit_length()-1
            if es==1<<sh: return z3.simplify(z3.LShR(e,z3.BitVecVal(sh,64)))
        sh=es.bit_length()-1
        if es==1<<sh: return e>>z3.BitVecVal(sh,64)
        return z3.simplify(e/z3.BitVecVal(es,64))
    def arr_load(self,st,o,p,ty):
        if ty.store!=o.es: raise Unsupported('array element size mismatch %d/%d'%(ty.store,o.es))
        v=z3.Select(o.arr,self.arr_idx(o,p))
        return self.conv(st,v,ty)
    def arr_store(self,st,o,p,v,ty):
        if ty.store!=o.es: raise Unsupported('array element size mismatch')
        rs=o.arr.sort().range()
        if rs.kind()==z3.Z3_BV_SORT: v=bvv(self.tobv(v,rs.size()),rs.size())
        elif rs.kind()==z3.Z3_REAL_SORT: v=self.zreal(self.tofp(v,ty.bits))
        else: v=fpv(self.tofp(v,ty.bits),ty.bits)
        o.arr=z3.Store(o.arr,self.arr_idx(o,p),v)
    def memcpy(self,st,d,s,n,inst=None):
        n=self.tobv(n,64)
        if is_sym(n):
            n=z3.simplify(n)
            if z3.is_bv_value(n): n=n.as_long()
        if not isinstance(n,int): return self.memcpy_sym(st,d,s,n,inst)
        if n==0: return
        d=self.toptr(st,d); s=self.toptr(st,s)
        if isinstance(d,PtrU) or isinstance(s,PtrU):
            if isinstance(s,PtrU) and isinstance(d,Ptr) and d.o and isinstance(d.off,int):
                # ite over sources
                vals=None
                for c,q in reversed(s.alts):
                    f,_=self.feasible(st,c)
                    if not f: continue
                    s2=st.fork(); s2.pc=st.pc+((c,) if c is not True else ()); s2.model=None
                    try: self.check_access(s2,q,n,inst,'memcpy read')
                    except PathDead: self.assume(st,znot(c)); continue
                    o=s2.mem[q.o]; 
                    if not isinstance(q.off,int): raise Unsupported('memcpy union sym')
                    cells=self.copy_cells(s2,o,q.off,n)
                    if vals is None: vals=cells
                    else:
                        if [(x[0],x[1]) for x in vals]!=[(x[0],x[1]) for x in cells]:
                            vals=self.to_byte_cells(vals); cells=self.to_byte_cells(cells)
                        vals=[(a[0],a[1],self.ite_ty(c,b[2],a[2],a[1])) for a,b in zip(vals,cells)]
                self.check_access(st,d,n,inst,'memcpy write')
                o=self.wobj(st,d.o)
                for of,sz,v in vals or []: self.put(o,d.off+of,sz,v)
                return
            raise Unsupported('memcpy with pointer union')
        if d is UNDEF or s is UNDEF: self.oblige(st,False,'memcpy undefined pointer',inst,'memory')
        so=self.check_access(st,s,n,inst,'memcpy read'); do=self.check_access(st,d,n,inst,'memcpy write')
        so=st.mem[s.o]
        if so.arr is not None or do.arr is not None or not isinstance(s.off,int) or not isinstance(d.off,int):
            return self.memcpy_slow(st,d,s,n,inst)
        cells=self.copy_cells(st,so,s.off,n)
        o=self.wobj(st,d.o)
        if so.default=='zero' and o.default!='zero' :
            # gaps are zeros
            have=set()
            for of,sz,v in cells: have.update(range(of,of+sz))
            if len(have)<n:
                for i in range(n):
                    if i not in have: self.put(o,d.off+i,1,0)
        else:
            have=set()
            for of,sz,v in cells: have.update(range(of,of+sz))
            if len(have)<n:
                for i in range(n):
                    if i not in have:
                        lo=[q for q in range(max(0,d.off+i-15),d.off+i+1) if q in o.cells and q+o.cells[q][0]>d.off+i]
                        if lo or o.default=='zero': self.put(o,d.off+i,1,UNDEF)
        for of,sz,v in cells: self.put(o,d.off+of,sz,v)
    def to_byte_cells(self,cells):
        out=[]
        for of,sz,v in cells:
            for i,b in enumerate(self.bytes_of(v,sz)): out.append((of+i,1,b))
        return out
    def copy_cells(self,st,o,off,n):
        out=[]; end=off+n
        for k in sorted(o.cells) if len(o.cells)<=4*n+64 else [k for k in range(max(0,off-15),end) if k in o.cells]:
            s,v=o.cells[k]
            if k>=off and k+s<=end: out.append((k-off,s,v))
            elif k<end and k+s>off:
                bs=self.bytes_of(v,s)
                for i in range(s):
                    if off<=k+i<end: out.append((k+i-off,1,bs[i]))
        return out
    def memcpy_slow(self,st,d,s,n,inst):
        o=st.mem[s.o]; do=st.mem[d.o]
        es=o.es if o.arr is not None else (do.es if do.arr is not None else 1)
        if es==1 and (o.arr is None and do.arr is None):
            # choose word granularity from alignment
            for g in (8,4,2):
                if n%g==0 and all((isinstance(q.off,int) and q.off%g==0) or (not isinstance(q.off,int) and q.g%g==0 and q.c%g==0) for q in (s,d)): es=g; break
        if n%es: raise Unsupported('memcpy slow granularity')
        ety=(o.ety if o.arr is not None else do.ety if do.arr is not None else None) or self.int_type(es*8)
        if n//es>512: raise Unsupported('memcpy of %d'%n)
        vals=[self.load(st,self.ptr_add(s,i*es),ety,inst) for i in range(n//es)]
        for i,v in enumerate(vals): self.store(st,self.ptr_add(d,i*es),v,ety,inst)
    def memcpy_sym(self,st,d,s,n,inst):
        mx=self.opts.get('memcpy_max',0)
        d=self.toptr(st,d); s=self.toptr(st,s)
        # symbolic length: guarded byte loop up to the object sizes
        if isinstance(d,PtrU) or isinstance(s,PtrU): raise Unsupported('symbolic memcpy union')
        lim=None
        for q in (d,s):
            o=st.mem.get(q.o)
            if o is not None and isinstance(o.size,int):
                l=o.size-(q.off if isinstance(q.off,int) else 0)
                lim=l if lim is None else min(lim,l)
        # find max feasible n
        hi=lim if lim is not None else 4096
        if hi>4096: raise Unsupported('symbolic memcpy too large')
        self.oblige(st,z3.ULE(n,z3.BitVecVal(hi,64)),'memcpy length within objects',inst,'memory')
        # narrow
        l,h=0,hi
        while l<h:
            m=(l+h+1)//2
            f,_=self.feasible(st,z3.UGE(n,z3.BitVecVal(m,64)))
            if f: l=m
            else: h=m-1
        hi=l
        ety=self.int_type(8)
        vals=[]
        for i in range(hi):
            c=z3.UGT(n,z3.BitVecVal(i,64))
            s2=st.fork(); s2.pc=st.pc+(c,); s2.model=None
            try: vals.append((c,self.load(s2,self.ptr_add(s,i),ety,inst)))
            except PathDead: self.assume(st,znot(c)); break
        for i,(c,v) in enumerate(vals):
            s2=st.fork(); s2.pc=st.pc+(c,); s2.model=None
            q=self.ptr_add(d,i)
            try: old=self.load(s2,q,ety,inst)
            except PathDead: self.assume(st,znot(c)); break
            self._store1(st,q,self.ite_ty(c,v,old,1),ety)
    def int_type(self,bits):
        t=LR.Type(); t.kind='int'; t.bits=bits; t.size=t.store=bits//8; t.elems=(); t.offs=(); t.n=0; t.align=t.size
        return t
    def memset(self,st,d,v,n,inst=None):
        n=self.tobv(n,64); v=self.tobv(v,8)
        if is_sym(n):
            n=z3.simplify(n); n=n.as_long() if z3.is_bv_value(n) else n
        if not isinstance(n,int): return self.memset_sym(st,d,v,n,inst)
        if n==0: return
        d=self.toptr(st,d)
        if isinstance(d,PtrU): raise Unsupported('memset union')
        o=self.check_access(st,d,n,inst,'memset')
        if not isinstance(d.off,int) or o.arr is not None:
            es=o.es if o.arr is not None else 1
            if v==0 or es==1:
                ety=o.ety if o.arr is not None else self.int_type(8)
                for i in range(n//es): self.store(st,self.ptr_add(d,i*es),v if ety.kind=='int' else self.fconst(0.0),ety,inst)
                return
            raise Unsupported('memset sym')
        o=self.wobj(st,d.o)
        if v==0 and isinstance(v,int) and d.off==0 and n==o.size:
            o.cells.clear(); o.default='zero'; return
        for k in [k for k in range(max(0,d.off-15),d.off+n) if k in o.cells]:
            s=o.cells[k][0]
            if k>=d.off and k+s<=d.off+n: del o.cells[k]
        if v==0 and isinstance(v,int) and o.default=='zero' and not any(k in o.cells and k+o.cells[k][0]>d.off for k in range(max(0,d.off-15),d.off+n)): return
        i=0
        while i<n:
            if isinstance(v,int) and (d.off+i)%8==0 and i+8<=n: self.put(o,d.off+i,8,int.from_bytes(bytes([v])*8,'little')); i+=8
            elif isinstance(v,int) and (d.off+i)%4==0 and i+4<=n: self.put(o,d.off+i,4,int.from_bytes(bytes([v])*4,'little')); i+=4
            else: self.put(o,d.off+i,1,v); i+=1
    def memset_sym(self,st,d,v,n,inst):
        d=self.toptr(st,d)
        o=st.mem.get(d.o)
        if o is None or not isinstance(o.size,int) or not isinstance(d.off,int) or o.size-d.off>4096: raise Unsupported('memset symbolic length')
        hi=o.size-d.off
        self.oblige(st,z3.ULE(n,z3.BitVecVal(hi,64)),'memset length within object',inst,'memory')
        ety=self.int_type(8)
        l,h=0,hi
        while l<h:
            m=(l+h+1)//2
            f,_=self.feasible(st,z3.UGE(n,z3.BitVecVal(m,64)))
            if f: l=m
            else: h=m-1
        for i in range(l):
            c=z3.UGT(n,z3.BitVecVal(i,64)); q=self.ptr_add(d,i)
            old=self.load(st,q,ety,inst)
            self._store1(st,q,self.ite_ty(c,v,old,1),ety)

from values import _Undef as _UndefT
