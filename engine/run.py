"""Function execution: control flow, calls, exceptions, loop contracts."""
from execu import *
import handlers as H, ival

STD_BASES={'_ZTISt13runtime_error':['_ZTISt9exception'],'_ZTISt11logic_error':['_ZTISt9exception'],
 '_ZTISt12length_error':['_ZTISt11logic_error'],'_ZTISt12out_of_range':['_ZTISt11logic_error'],'_ZTISt16invalid_argument':['_ZTISt11logic_error'],
 '_ZTISt12domain_error':['_ZTISt11logic_error'],'_ZTISt9bad_alloc':['_ZTISt9exception'],'_ZTISt8bad_cast':['_ZTISt9exception'],'_ZTISt20bad_array_new_length':['_ZTISt9bad_alloc'],
 '_ZTISt11range_error':['_ZTISt13runtime_error'],'_ZTISt14overflow_error':['_ZTISt13runtime_error'],'_ZTISt15underflow_error':['_ZTISt13runtime_error'],
 '_ZTISt17bad_function_call':['_ZTISt9exception'],'_ZTISt10bad_typeid':['_ZTISt9exception']}

class Exec(Engine):
    def __init__(self,*a,**k):
        super().__init__(*a,**k)
        self.tids={}
        self.replace=self.opts.get('replace',{})
        self.cut=self.opts.get('cut',None)
    # ------------------------------------------------------------ types of exceptions
    def ti_bases(self,n):
        if n in STD_BASES: return [(b,0) for b in STD_BASES[n]]
        g=self.mod.globals.get(n)
        if g is None or g.decl: return []
        c=self.mod.const(LR.L.LLVMGetInitializer(g.ref))
        vt=self._gname(c.v[0])
        if 'si_class' in vt: return [(self._gname(c.v[2]),0)]
        if 'vmi_class' in vt:
            r=[]
            for i in range(4,len(c.v),2):
                of=c.v[i+1].v; of=sgn(of,64)>>8
                r.append((self._gname(c.v[i]),of))
            return r
        return []
    def _gname(self,c):
        while c.k=='expr': c=c.v[1][0]
        return c.v.name if c.k in('global','func') else ''
    def ti_match(self,thrown,catch):
        if thrown==catch: return True
        return any(self.ti_match(b,catch) for b,_ in self.ti_bases(thrown))
    def tid(self,n):
        return self.tids.setdefault(n,len(self.tids)+1)
    # ------------------------------------------------------------ function execution
    def exec_fn(self,fn,args,st):
        blocks=self.mod.blocks(fn)
        self.depth+=1
        if self.depth>400: raise Unsupported('recursion too deep in '+fn.name)
        self.stack.append(fn)
        if fn.file.startswith(self.opts.get('repo','/repo')): self.funcs_seen[fn.name]=self.funcs_seen.get(fn.name,0)+1
        fr=Frame(); fr.fn=fn; fr.allocas=[]; fr.blocks=blocks
        regs={p:a for p,a in zip(fn.params,args)}
        if fn.vararg: regs[-1]=tuple(args[len(fn.params):])
        fr.visits={}
        heap=[]; pend={}
        outs=[]
        def push(bi,s,r):
            if bi not in pend:
                pend[bi]=[(s,r)]; heapq.heappush(heap,(blocks[bi].rpo,bi))
            else:
                l=pend[bi]
                tys=fn.regty
                if not self.opts.get('nomerge'):
                    for i in range(len(l)-1,-1,-1):
                        m=self.merge_states(blocks[bi].livein,l[i][0],l[i][1],s,r,tys)
                        if m is not None:
                            mr=m[1]
                            for k in set(l[i][1])|set(r):
                                if isinstance(k,tuple): mr[k]=max(l[i][1].get(k,0),r.get(k,0))
                            l[i]=(m[0],mr); return
                l.append((s,r))
                if len(l)>self.opts.get('max_states',256): raise Unsupported('too many unmerged states in '+fn.name)
        push(0,st,regs)
        while heap:
            _,bi=heapq.heappop(heap)
            items=pend.pop(bi)
            for s,r in items:
                self.run_block(fr,bi,s,r,push,outs)
        self.stack.pop(); self.depth-=1
        # cleanup allocas
        for k,v,s in outs:
            for a in fr.allocas: s.mem.pop(a,None)
        return self.merge_outs(outs,fn)
    def merge_outs(self,outs,fn):
        if len(outs)<=1 or self.opts.get('nomerge'): return outs
        res=[]
        for k,v,s in outs:
            for i,(k2,v2,s2) in enumerate(res):
                if k!=k2: continue
                if k=='exc':
                    if v[1]!=v2[1]: continue
                    m=self.merge_states((0,),s2,{0:v2[0]},s,{0:v[0]},{0:PTR})
                    if m is not None: res[i]=(k,(m[1][0],v[1]),m[0]); break
                else:
                    m=self.merge_states((0,) if v is not None else (),s2,{0:v2},s,{0:v},{0:fn.ret})
                    if m is not None: res[i]=(k,m[1].get(0),m[0]); break
            else: res.append((k,v,s))
        return res
    def edge(self,fr,src,dst,st,regs,push):
        B=fr.blocks[dst]
        if B.phis:
            vals=[(p.dst,self.val2(regs,st,p.ops[src])) for p in B.phis]
            regs=dict(regs)
            for d,v in vals: regs[d]=v
        if B.loop_header:
            body=fr.fn.loops[dst]
            if src in body:
                if ('cut',dst) in regs: 
                    self.cut_backedge(fr,dst,st,regs); return
                if regs.get(('sx',dst),0)>self.unwind:
                    self.unwind_hits.append((fr.fn.name,B.line))
                    self.obls.append(Obligation('unwinding bound %d suffices for loop at %s:%d'%(self.unwind,fr.fn.file,B.line),st.pc,False,'%s:%d'%(fr.fn.file,B.line),'unwind',fr.fn.name))
                    return
                n=regs.get(('n',dst),0)+1
                regs=dict(regs); regs[('n',dst)]=n
                if n>self.opts.get('max_iter',20000): raise Budget('loop iteration budget in '+fr.fn.name)
            else:
                regs=dict(regs); regs.pop(('sx',dst),None); regs.pop(('n',dst),None)
                if self.want_cut(fr,dst,st,regs):
                    self.cut_entry(fr,src,dst,st,regs,push); return
        push(dst,st,regs)
    def val2(self,regs,st,o):
        if isinstance(o,Reg): return regs[o.i]
        return self.cval(st,o)
    def want_cut(self,fr,h,st,regs): return False
    def branch(self,fr,bi,st,regs,c,t,e,push):
        if isinstance(c,bool):
            self.edge(fr,bi,t if c else e,st,regs,push); return
        c=z3.simplify(c)
        if z3.is_true(c): self.edge(fr,bi,t,st,regs,push); return
        if z3.is_false(c): self.edge(fr,bi,e,st,regs,push); return
        if t==e: self.edge(fr,bi,t,st,regs,push); return
        nc=znot(c)
        ft,mt=self.feasible(st,c)
        fe,me=self.feasible(st,nc)
        if ft and not fe:
            st.model=mt; self.edge(fr,bi,t,st,regs,push); return
        if fe and not ft:
            st.model=me; self.edge(fr,bi,e,st,regs,push); return
        if not ft: return
        # symbolic loop exit accounting
        for h,body in fr.fn.loops.items():
            if bi in body and ((t in body)!=(e in body)):
                regs=dict(regs); regs[('sx',h)]=regs.get(('sx',h),0)+1
        s2=st.fork()
        st.pc=st.pc+(c,); st.model=mt
        s2.pc=s2.pc+(nc,); s2.model=me
        self.edge(fr,bi,t,st,dict(regs),push)
        self.edge(fr,bi,e,s2,dict(regs),push)
    def run_block(self,fr,bi,st,regs,push,outs):
        B=fr.blocks[bi]
        work=[(st,regs,0)]
        while work:
            st,regs,i=work.pop()
            fr.regs=regs
            try:
                self.run_insts(fr,B,st,regs,i,push,outs,work)
            except PathDead:
                continue
    def run_insts(self,fr,B,st,regs,i,push,outs,work):
        insts=B.insts; n=len(insts)
        while i<n:
            I=insts[i]; op=I.op
            self.ninst+=1
            if self.ninst>self.max_inst: raise Budget('instruction budget')
            if self.deadline and self.ninst%256==0 and time.time()>self.deadline: raise Budget('time budget')
            fr.regs=regs
            if op in('call','invoke'):
                res=self.do_call(fr,st,regs,I)
                if op=='call' and len(res)==1 and res[0][0]=='ret':
                    _,v,s=res[0]
                    if s is not st: st=s
                    if I.ty.kind!='void': regs[I.dst]=v
                    i+=1; continue
                for idx,(k,v,s) in enumerate(res):
                    r=dict(regs) if len(res)>1 else regs
                    if k=='ret':
                        if I.ty.kind!='void': r[I.dst]=v
                        if op=='call': work.append((s,r,i+1))
                        else: 
                            try: self.edge(fr,B.idx,I.x[3],s,r,push)
                            except PathDead: pass
                    else:
                        if op=='call': outs.append(('exc',v,s))
                        else: self.unwind_to(fr,B.idx,I.x[4],s,r,v,push,outs)
                return
            if op=='br':
                if len(I.ops)==1: self.edge(fr,B.idx,I.ops[0],st,regs,push)
                else: self.branch(fr,B.idx,st,regs,self.tobool(self.val2(regs,st,I.ops[0])),I.ops[1],I.ops[2],push)
                return
            if op=='ret':
                v=self.val2(regs,st,I.ops[0]) if I.ops else None
                outs.append(('ret',v,st)); return
            if op=='switch':
                self.do_switch(fr,B.idx,st,regs,I,push); return
            if op=='unreachable':
                self.oblige(st,False,'unreachable code reached',I,'memory'); return
            if op=='resume':
                v=self.val2(regs,st,I.ops[0])
                outs.append(('exc',(v[0],self.exc_type(st,v[0])),st)); return
            if op=='landingpad':
                regs[I.dst]=regs['lp']; i+=1; continue
            if op=='select' and self.opts.get('nomerge') and I.ty.kind!='vector':
                c=self.tobool(self.val2(regs,st,I.ops[0]))
                if not isinstance(c,bool):
                    nc=znot(c); ft,mt=self.feasible(st,c); fe,me=self.feasible(st,nc)
                    if ft and fe:
                        s2=st.fork(); s2.pc=s2.pc+(nc,); s2.model=me; r2=dict(regs); r2[I.dst]=self.val2(regs,s2,I.ops[2]); work.append((s2,r2,i+1))
                        st.pc=st.pc+(c,); st.model=mt
                    if not ft and not fe: return
                    regs[I.dst]=self.val2(regs,st,I.ops[1] if ft else I.ops[2]); i+=1; continue
            if op=='zext' and self.splitint and I.ty.kind!='vector' and I.x[0].bits==1:
                c=self.tobool(self.val2(regs,st,I.ops[0]))
                if not isinstance(c,bool):
                    nc=znot(c); ft,mt=self.feasible(st,c); fe,me=self.feasible(st,nc)
                    if not ft and not fe: return
                    if ft and fe:
                        s2=st.fork(); s2.pc=s2.pc+(nc,); s2.model=me; r2=dict(regs); r2[I.dst]=0; work.append((s2,r2,i+1))
                        st.pc=st.pc+(c,); st.model=mt
                    regs[I.dst]=1 if ft else 0; i+=1; continue
            if op=='fptosi' and self.splitint and I.ty.kind!='vector':
                a=self.tofp(self.val2(regs,st,I.ops[0]),I.x[0].bits)
                if isinstance(a,z3.ExprRef):
                    sp=ival.trunc_split(self.zreal(a),st.pc,self.splitint)
                    if sp is not None:
                        for k,c in sp:
                            f,m=(True,st.model) if len(sp)==1 else self.feasible(st,c)
                            if not f: continue
                            s2=st.fork(); r2=dict(regs); r2[I.dst]=k&mask(I.ty.bits); s2.model=m
                            if len(sp)>1: s2.pc=s2.pc+(c,)
                            work.append((s2,r2,i+1))
                        return
            v=self.step(fr,st,regs,I)
            if v is not NOVAL: regs[I.dst]=v
            i+=1
    def exc_type(self,st,p):
        return st.ghost.get(('exct',p.o if isinstance(p,Ptr) else None))
    def unwind_to(self,fr,src,dst,st,regs,exc,push,outs):
        B=fr.blocks[dst]; lp=None
        for I in B.insts:
            if I.op=='landingpad': lp=I; break
        cleanup,clauses=lp.x
        ptr,tn=exc
        sel=None
        for c in clauses:
            if c.k=='null': sel=self.tid('*'); break
            if c.ty.kind=='array':
                items=c.v if c.k=='agg' else []
                if not any(self._gname(x)==tn or self.ti_match(tn,self._gname(x)) for x in items): sel=mask(32); break
                continue
            n=self._gname(c)
            if tn is not None and self.ti_match(tn,n): sel=self.tid(n); break
        if sel is None:
            if not cleanup: outs.append(('exc',exc,st)); return
            sel=0
        regs=dict(regs); regs['lp']=(ptr,sel)
        try: self.edge(fr,src,dst,st,regs,push)
        except PathDead: pass
    def do_switch(self,fr,bi,st,regs,I,push):
        c=self.val2(regs,st,I.ops[0]); dflt,cases,ty=I.x
        c=self.tobv(c,ty.bits) if ty.bits>1 else self.tobool(c)
        if is_sym(c): 
            c=z3.simplify(c)
            if z3.is_bv_value(c): c=c.as_long()
        if isinstance(c,int):
            for v,d in cases:
                if v==c: self.edge(fr,bi,d,st,regs,push); return
            self.edge(fr,bi,dflt,st,regs,push); return
        groups={}
        for v,d in cases: groups.setdefault(d,[]).append(v)
        conds=[]
        for d,vs in groups.items():
            if d==dflt: continue
            conds.append((d,zor(*[c==z3.BitVecVal(v,ty.bits) for v in self.ranges(vs)]) if len(vs)<4 else self.range_cond(c,vs,ty.bits)))
        rest=st
        nots=[]
        for d,cc in conds:
            f,m=self.feasible(st,cc)
            nots.append(znot(cc))
            if f:
                s2=st.fork(); s2.pc=st.pc+(cc,); s2.model=m
                try: self.edge(fr,bi,d,s2,dict(regs),push)
                except PathDead: pass
        nc=zand(*nots)
        f,m=self.feasible(st,nc)
        if f:
            if nc is not True: st.pc=st.pc+(nc,)
            st.model=m
            self.edge(fr,bi,dflt,st,regs,push)
    def ranges(self,vs): return vs
    def range_cond(self,c,vs,bits):
        vs=sorted(vs); out=[]; s=e=vs[0]
        for v in vs[1:]+[None]:
            if v is not None and v==e+1: e=v; continue
            out.append(c==z3.BitVecVal(s,bits) if s==e else z3.And(z3.ULE(z3.BitVecVal(s,bits),c),z3.ULE(c,z3.BitVecVal(e,bits))))
            if v is not None: s=e=v
        return zor(*out)
    # ------------------------------------------------------------ single instructions
    def step(self,fr,st,regs,I):
        op=I.op; ty=I.ty
        V=lambda o: regs[o.i] if isinstance(o,Reg) else self.cval(st,o)
        if op=='load': return self.load(st,V(I.ops[0]),ty,I)
        if op=='store':
            self.store(st,V(I.ops[1]),V(I.ops[0]),I.x[0],I); return NOVAL
        if op=='gep':
            if ty.kind=='vector': raise Unsupported('vector gep')
            return self.gep(st,I.x[0],[V(o) for o in I.ops],I.x[1])
        if op in IBIN:
            a=V(I.ops[0]); b=V(I.ops[1])
            if ty.kind=='vector': return tuple(self.ibin(op,x,y,ty.elems[0].bits) for x,y in zip(a,b))
            if op in('udiv','sdiv','urem','srem'):
                bb=self.tobv(b,ty.bits)
                nz=(bb!=0) if isinstance(bb,int) else bb!=z3.BitVecVal(0,ty.bits)
                self.oblige(st,nz,'division by zero',I,'memory')
                if op in('sdiv','srem'):
                    aa=self.tobv(a,ty.bits)
                    if isinstance(bb,int) and sgn(bb,ty.bits)!=-1: pass
                    elif isinstance(aa,int) and aa!=1<<(ty.bits-1): pass
                    else: self.oblige(st,znot(zand(self.icmp(st,'eq',aa,1<<(ty.bits-1),ty),self.icmp(st,'eq',bb,mask(ty.bits),ty))),'signed division overflow',I,'memory')
            # pointer difference through ints keeps working since bases are concrete
            return self.ibin(op,a,b,ty.bits)
        if op in('fadd','fsub','fmul','fdiv','frem'):
            a=V(I.ops[0]); b=V(I.ops[1])
            if ty.kind=='vector': return tuple(self.fbin(op,x,y,ty.elems[0].bits) for x,y in zip(a,b))
            if op=='fdiv' and self.mode=='real':
                bb=self.tofp(b,ty.bits)
                if isinstance(bb,Fraction): nz=bb!=0
                else: nz=self.zreal(bb)!=0
                if self.opts.get('divzero','assume')=='oblige': self.oblige(st,nz,'real division by zero',I,'memory')
            return self.fbin(op,a,b,ty.bits)
        if op=='fneg':
            return self.fneg(V(I.ops[0]),ty)
        if op=='icmp': return self.icmp(st,I.x[0],V(I.ops[0]),V(I.ops[1]),I.x[1])
        if op=='fcmp':
            t=I.x[1]
            if t.kind=='vector': return tuple(self.fcmp(I.x[0],a,b,t.elems[0].bits) for a,b in zip(V(I.ops[0]),V(I.ops[1])))
            return self.fcmp(I.x[0],V(I.ops[0]),V(I.ops[1]),t.bits)
        if op=='select':
            c=V(I.ops[0])
            a=V(I.ops[1]); b=V(I.ops[2])
            if isinstance(c,tuple): return tuple(self.ite_val(self.tobool(x),p,q,ty.elems[0]) for x,p,q in zip(c,a,b))
            return self.ite_val(self.tobool(c),a,b,ty)
        if op=='zext' or op=='sext':
            f=I.x[0]
            a=V(I.ops[0])
            if ty.kind=='vector': return tuple(self.ext(op,x,f.elems[0].bits,ty.elems[0].bits) for x in a)
            return self.ext(op,a,f.bits,ty.bits)
        if op=='trunc':
            a=V(I.ops[0])
            if ty.kind=='vector': return tuple(self.trunc(x,I.x[0].elems[0].bits,ty.elems[0].bits) for x in a)
            if isinstance(a,Blob):
                # keep whole low pieces
                acc=0; ps=[]
                for s,v in a.pieces:
                    if acc+s>ty.bits//8: break
                    ps.append((s,v)); acc+=s
                if acc*8==ty.bits: return Blob(ps)
            return self.trunc(a,I.x[0].bits,ty.bits)
        if op=='alloca':
            n=V(I.ops[0])
            if not isinstance(n,int): raise Unsupported('symbolic alloca')
            o=self.new_obj(st,I.x.size*n,fr.fn.name[:40]+':local',kind='stack'); fr.allocas.append(o.id)
            return Ptr(o.id,0)
        if op=='bitcast':
            return self.bitcast(st,V(I.ops[0]),I.x[0],ty)
        if op=='ptrtoint': 
            v=self.tobv(V(I.ops[0]),64)
            return v if ty.bits==64 else self.trunc(v,64,ty.bits)
        if op=='inttoptr': return self.toptr(st,V(I.ops[0]))
        if op in('fptosi','fptoui'): return self.fp2int(V(I.ops[0]),I.x[0].bits,ty.bits,op=='fptosi',st)
        if op in('sitofp','uitofp'): 
            if ty.kind=='vector': return tuple(self.int2fp(x,I.x[0].elems[0].bits,ty.elems[0].bits,op=='sitofp') for x in V(I.ops[0]))
            return self.int2fp(V(I.ops[0]),I.x[0].bits,ty.bits,op=='sitofp')
        if op in('fptrunc','fpext'):
            if ty.bits==80 or I.x[0].bits==80: raise Unsupported('x87 long double')
            return self.fpcast(V(I.ops[0]),I.x[0].bits,ty.bits)
        if op=='extractvalue':
            v=V(I.ops[0])
            for k in I.x: v=v[k]
            return v
        if op=='insertvalue':
            return self._ins(V(I.ops[0]),I.x,V(I.ops[1]),ty)
        if op=='extractelement':
            v=V(I.ops[0]); k=V(I.ops[1])
            if not isinstance(k,int): raise Unsupported('symbolic extractelement')
            return v[k]
        if op=='insertelement':
            v=list(V(I.ops[0])); k=V(I.ops[2]); v[k]=V(I.ops[1]); return tuple(v)
        if op=='shufflevector':
            a=V(I.ops[0]); b=V(I.ops[1]); ab=tuple(a)+tuple(b)
            return tuple(ab[k] if k>=0 else UNDEF for k in I.x)
        if op=='freeze':
            v=V(I.ops[0])
            return self.fresh_of(ty,'frz') if v is UNDEF and ty.kind!='ptr' else v
        if op=='fence': return NOVAL
        if op=='atomicrmw':
            p=V(I.ops[0]); v=V(I.ops[1]); old=self.load(st,p,ty,I)
            k=I.x[0]
            if k=='xchg': nv=v
            elif k in('add','sub','and','or','xor'): nv=self.ibin(k,old,v,ty.bits)
            else: raise Unsupported('atomicrmw '+k)
            self.store(st,p,nv,ty,I); return old
        if op=='cmpxchg':
            p=V(I.ops[0]); t=I.x[1]; old=self.load(st,p,t,I)
            c=self.icmp(st,'eq',old,V(I.ops[1]),t)
            self.store(st,p,self.ite_val(c,V(I.ops[2]),old,t),t,I)
            return (old,c)
        raise Unsupported('instruction '+op)
    def fneg(self,a,ty):
        if ty.kind=='vector': return tuple(self.fneg(x,ty.elems[0]) for x in a)
        a=self.tofp(a,ty.bits)
        if isinstance(a,(float,Fraction)): return -a
        return -a if self.mode=='real' else z3.fpNeg(a)
    def _ins(self,agg,idx,v,ty):
        if agg is UNDEF: agg=self.cval(None,Const('undef',ty,None))
        l=list(agg)
        if len(idx)==1: l[idx[0]]=v
        else: l[idx[0]]=self._ins(l[idx[0]],idx[1:],v,ty.elems[idx[0]] if ty.kind=='struct' else ty.elems[0])
        return tuple(l)
    def ext(self,op,a,f,t):
        if f==1:
            a=self.tobool(a)
            one=1 if op=='zext' else mask(t)
            if isinstance(a,bool): return one if a else 0
            return z3.If(a,z3.BitVecVal(one,t),z3.BitVecVal(0,t))
        a=self.tobv(a,f)
        if isinstance(a,int): return a if op=='zext' else sgn(a,f)&mask(t)
        return z3.ZeroExt(t-f,a) if op=='zext' else z3.SignExt(t-f,a)
    def bitcast(self,st,v,f,t):
        if f.kind==t.kind and f.kind!='vector': return v
        if t.kind=='fp':
            if isinstance(v,Blob) and len(v.pieces)==1: v=v.pieces[0][1]
            if f.kind=='vector': v=self.tobv(Blob([(f.elems[0].store,x) for x in v]),t.bits)
            return self.tofp(v,t.bits)
        if t.kind=='int':
            if f.kind=='fp': return Blob([(f.bits//8,v)]) if not isinstance(v,float) else float_bits(v,f.bits)
            if f.kind=='vector':
                return Blob([(f.elems[0].store,x) for x in v])
            return v
        if t.kind=='vector':
            es=t.elems[0].store
            if f.kind=='vector':
                if f.n==t.n: return tuple(self.conv(st,x,t.elems[0]) for x in v)
                v=Blob([(f.elems[0].store,x) for x in v])
            if isinstance(v,Blob) and all(s==es for s,_ in v.pieces): return tuple(self.conv(st,x,t.elems[0]) for _,x in v.pieces)
            bv=self.tobv(v,t.store*8)
            out=[]
            for i in range(t.n):
                x=(bv>>(8*es*i))&mask(8*es) if isinstance(bv,int) else z3.Extract(8*es*(i+1)-1,8*es*i,bv)
                out.append(self.conv(st,x,t.elems[0]))
            return tuple(out)
        raise Unsupported('bitcast %r %r'%(f,t))
    # ------------------------------------------------------------ calls
    def do_call(self,fr,st,regs,I):
        callee,argtys,byval,nd,ud=I.x
        if isinstance(callee,Const) and callee.k=='func': fn=callee.v
        else:
            if isinstance(callee,Const) and callee.k=='asm': raise Unsupported('inline asm')
            p=self.toptr(st,regs[callee.i] if isinstance(callee,Reg) else self.cval(st,callee))
            if isinstance(p,PtrU):
                res=[]
                for c,q in p.alts:
                    f,m=self.feasible(st,c)
                    if not f: continue
                    s2=st.fork(); s2.pc=st.pc+((c,) if c is not True else ()); s2.model=m
                    fn=self.idfn.get(q.o) if isinstance(q,Ptr) else None
                    if fn is None:
                        try: self.oblige(s2,False,'call through invalid function pointer',I,'memory')
                        except PathDead: continue
                    try: res+=self.call_fn(fn,[regs[o.i] if isinstance(o,Reg) else (None if o is None else self.cval(s2,o)) for o in I.ops],s2,I,argtys,byval)
                    except PathDead: pass
                return self.merge_outs(res,_R(I.ty))
            if p is UNDEF or p.o not in self.idfn:
                self.oblige(st,False,'call through null/invalid function pointer',I,'memory')
            fn=self.idfn[p.o]
        args=[regs[o.i] if isinstance(o,Reg) else (None if o is None else self.cval(st,o)) for o in I.ops]
        return self.call_fn(fn,args,st,I,argtys,byval)
    def call_fn(self,fn,args,st,I,argtys,byval):
        name=fn.name
        h=self.handler_cache.get(name,0)
        if h==0:
            h=self.find_handler(fn); self.handler_cache[name]=h
        if h is not None:
            if isinstance(h,LR.Func): fn=h
            else:
                return self.call_handler(h,st,list(args),I,fn,argtys)
        if byval:
            for j,t in byval.items():
                o=self.new_obj(st,t.size,'byval',kind='stack')
                self.memcpy(st,Ptr(o.id,0),args[j],t.size,I)
                args[j]=Ptr(o.id,0)
        if fn.decl: raise Unsupported('external function '+fn.name)
        d=self.depth; sl=len(self.stack)
        try: return self.exec_fn(fn,args,st)
        except PathDead:
            self.depth=d; del self.stack[sl:]
            raise
    def call_handler(self,h,st,args,I,fn,argtys):
        if fn.name[:3]!='vp_':
            for j,a in enumerate(args):
                if isinstance(a,PtrU):
                    res=[]
                    for s,q in H.alts(self,st,a):
                        try: res+=self.call_handler(h,s,args[:j]+[q]+args[j+1:],I,fn,argtys)
                        except PathDead: pass
                    return self.merge_outs(res,_R(I.ty))
        r=h(self,st,args,I,fn,argtys)
        if isinstance(r,list): return r
        return [('ret',r,st)]
    def find_handler(self,fn):
        for pat,stub in self.replace.items():
            if re.search(pat,fn.name): 
                if stub=='nop': return lambda e,s,a,I,f,t: e.havoc_ret(f)
                return self.mod.funcs[stub]
        h=H.EXACT.get(fn.name)
        if h: return h
        if not fn.decl and fn.name.startswith('_ZN5AqsislsE') and 'vpo_cstr' in self.replace.values(): return None
        for rx,h in H.REGEX:
            if rx.search(fn.name) : return h
        return None
    def havoc_ret(self,fn):
        return None if fn.ret.kind=='void' else self.fresh_of(fn.ret,'hv')
    def throw(self,st,tn,ptr=None):
        if ptr is None:
            o=self.new_obj(st,64,'exception:'+tn,default='zero'); ptr=Ptr(o.id,0)
        st.ghost[('exct',ptr.o)]=tn
        return [('exc',(ptr,tn),st)]

class _R:
    def __init__(s,ret): s.ret=ret
NOVAL=object()
IBIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
PTR=LR.Type(); PTR.kind='ptr'; PTR.bits=64; PTR.size=PTR.store=8; PTR.elems=(); PTR.offs=(); PTR.n=0; PTR.align=8
