"""Reader for LLVM-18 bitcode through the LLVM C API (ctypes).

Decodes functions lazily into plain python structures; see class Module."""
import ctypes, struct
from ctypes import c_void_p as VP, c_uint as U, c_ulonglong as ULL, c_int as I, c_char_p as CP, c_size_t as SZ, POINTER, byref

L = ctypes.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")

def _d(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f

for n, r, a in [
    ("LLVMContextCreate", VP, ()), ("LLVMGetModuleContext", VP, (VP,)),
    ("LLVMCreateMemoryBufferWithContentsOfFile", I, (CP, POINTER(VP), POINTER(CP))),
    ("LLVMParseIRInContext", I, (VP, VP, POINTER(VP), POINTER(CP))),
    ("LLVMGetFirstFunction", VP, (VP,)), ("LLVMGetNextFunction", VP, (VP,)),
    ("LLVMGetFirstGlobal", VP, (VP,)), ("LLVMGetNextGlobal", VP, (VP,)),
    ("LLVMGetFirstGlobalAlias", VP, (VP,)), ("LLVMGetNextGlobalAlias", VP, (VP,)),
    ("LLVMAliasGetAliasee", VP, (VP,)),
    ("LLVMGetValueName2", VP, (VP, POINTER(SZ))), ("LLVMIsDeclaration", I, (VP,)),
    ("LLVMGetFirstBasicBlock", VP, (VP,)), ("LLVMGetNextBasicBlock", VP, (VP,)),
    ("LLVMGetFirstInstruction", VP, (VP,)), ("LLVMGetNextInstruction", VP, (VP,)),
    ("LLVMGetInstructionOpcode", I, (VP,)), ("LLVMGetNumOperands", I, (VP,)), ("LLVMGetOperand", VP, (VP, U)),
    ("LLVMTypeOf", VP, (VP,)), ("LLVMGetTypeKind", I, (VP,)), ("LLVMGetIntTypeWidth", U, (VP,)),
    ("LLVMCountStructElementTypes", U, (VP,)), ("LLVMStructGetTypeAtIndex", VP, (VP, U)),
    ("LLVMGetElementType", VP, (VP,)), ("LLVMGetArrayLength2", ULL, (VP,)), ("LLVMGetVectorSize", U, (VP,)),
    ("LLVMGetModuleDataLayout", VP, (VP,)), ("LLVMABISizeOfType", ULL, (VP, VP)), ("LLVMStoreSizeOfType", ULL, (VP, VP)),
    ("LLVMOffsetOfElement", ULL, (VP, VP, U)), ("LLVMGetReturnType", VP, (VP,)), ("LLVMGlobalGetValueType", VP, (VP,)),
    ("LLVMABIAlignmentOfType", U, (VP, VP)),
    ("LLVMCountParams", U, (VP,)), ("LLVMGetParam", VP, (VP, U)), ("LLVMIsFunctionVarArg", I, (VP,)),
    ("LLVMGetValueKind", I, (VP,)), ("LLVMConstIntGetZExtValue", ULL, (VP,)),
    ("LLVMConstRealGetDouble", ctypes.c_double, (VP, POINTER(I))),
    ("LLVMGetConstOpcode", I, (VP,)), ("LLVMGetAsString", VP, (VP, POINTER(SZ))), ("LLVMIsConstantString", I, (VP,)),
    ("LLVMGetElementAsConstant", VP, (VP, U)), ("LLVMGetAggregateElement", VP, (VP, U)),
    ("LLVMGetInitializer", VP, (VP,)), ("LLVMIsGlobalConstant", I, (VP,)),
    ("LLVMGetICmpPredicate", I, (VP,)), ("LLVMGetFCmpPredicate", I, (VP,)),
    ("LLVMCountIncoming", U, (VP,)), ("LLVMGetIncomingValue", VP, (VP, U)), ("LLVMGetIncomingBlock", VP, (VP, U)),
    ("LLVMGetAllocatedType", VP, (VP,)), ("LLVMGetGEPSourceElementType", VP, (VP,)),
    ("LLVMGetNumIndices", U, (VP,)), ("LLVMGetIndices", POINTER(U), (VP,)),
    ("LLVMGetCalledValue", VP, (VP,)), ("LLVMGetNumArgOperands", U, (VP,)), ("LLVMGetCalledFunctionType", VP, (VP,)),
    ("LLVMGetNormalDest", VP, (VP,)), ("LLVMGetUnwindDest", VP, (VP,)),
    ("LLVMIsCleanup", I, (VP,)), ("LLVMGetNumClauses", U, (VP,)), ("LLVMGetClause", VP, (VP, U)),
    ("LLVMBasicBlockAsValue", VP, (VP,)), ("LLVMValueAsBasicBlock", VP, (VP,)),
    ("LLVMGetNumSuccessors", U, (VP,)), ("LLVMGetSuccessor", VP, (VP, U)),
    ("LLVMGetEnumAttributeKindForName", U, (CP, SZ)),
    ("LLVMGetCallSiteEnumAttribute", VP, (VP, U, U)), ("LLVMGetTypeAttributeValue", VP, (VP,)),
    ("LLVMGetDebugLocLine", U, (VP,)), ("LLVMGetDebugLocFilename", VP, (VP, POINTER(U))),
    ("LLVMGetSubprogram", VP, (VP,)), ("LLVMDIScopeGetFile", VP, (VP,)), ("LLVMDIFileGetFilename", VP, (VP, POINTER(U))),
    ("LLVMDIFileGetDirectory", VP, (VP, POINTER(U))), ("LLVMDISubprogramGetLine", U, (VP,)),
    ("LLVMGetAtomicRMWBinOp", I, (VP,)), ("LLVMPrintValueToString", VP, (VP,)), ("LLVMPrintTypeToString", VP, (VP,)),
    ("LLVMGetNumMaskElements", U, (VP,)), ("LLVMGetMaskValue", I, (VP, U)),
    ("LLVMIsAConstantExpr", VP, (VP,)), ("LLVMIsNull", I, (VP,)), ("LLVMIsPackedStruct", I, (VP,)),
    ("LLVMDisposeMessage", None, (VP,)), ("LLVMGetInlineAsm", VP, (VP,)),
]:
    _d(n, r, *a)

# value kinds (LLVMValueKind)
(VK_Argument, VK_BasicBlock, VK_MemoryUse, VK_MemoryDef, VK_MemoryPhi, VK_Function, VK_GlobalAlias, VK_GlobalIFunc,
 VK_GlobalVariable, VK_BlockAddress, VK_ConstantExpr, VK_ConstantArray, VK_ConstantStruct, VK_ConstantVector,
 VK_Undef, VK_AggZero, VK_CDArray, VK_CDVector, VK_ConstInt, VK_ConstFP, VK_ConstNull, VK_TokenNone, VK_Metadata,
 VK_InlineAsm, VK_Instruction, VK_Poison) = range(26)

OPN = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',
 57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast',66:'fneg',68:'freeze',49:'vaarg'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = ['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']
RMW = ['xchg','add','sub','and','nand','or','xor','max','min','umax','umin','fadd','fsub']

class Type:
    __slots__ = ('kind','bits','elems','offs','n','size','store','ref','align')
    def __repr__(s):
        if s.kind=='int': return 'i%d'%s.bits
        if s.kind=='fp': return 'f%d'%s.bits
        if s.kind=='struct': return '{'+','.join(map(repr,s.elems))+'}'
        if s.kind in('array','vector'): return '[%d x %r]'%(s.n,s.elems[0])
        return s.kind

class Inst:
    __slots__ = ('op','dst','ty','ops','x','line','file','_ref')
    def __repr__(s): return '%s=%s %r %r %r'%(s.dst,s.op,s.ty,s.ops,s.x)

class Block:
    __slots__=('idx','insts','phis','succs','name','preds','rpo','loop_header','livein','line')

class Func:
    __slots__=('name','ref','decl','params','param_tys','ret','vararg','_blocks','mod','file','line','dem','loops','info','regty')
    def __repr__(s): return '<fn %s>'%s.name

class Global:
    __slots__=('name','ref','ty','const','decl','mod')
    def __repr__(s): return '<global %s>'%s.name

class Reg:
    __slots__=('i',)
    def __init__(s,i): s.i=i
    def __repr__(s): return '%%%d'%s.i

class Const:   # resolved constant: tree
    __slots__=('k','ty','v')
    def __init__(s,k,ty,v): s.k=k; s.ty=ty; s.v=v
    def __repr__(s): return 'C(%s,%r)'%(s.k,s.v)

def _str(p, ln=None):
    if not p: return ''
    return (ctypes.string_at(p, ln) if ln is not None else ctypes.string_at(p)).decode('utf8','replace')

class Module:
    def __init__(self, path):
        self.ctx = L.LLVMContextCreate()
        mb = VP(); msg = CP()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(mb), byref(msg)):
            raise RuntimeError(msg.value)
        m = VP()
        if L.LLVMParseIRInContext(self.ctx, mb, byref(m), byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.funcs = {}; self.globals = {}; self.byref = {}; self.aliases={}
        self.byval = L.LLVMGetEnumAttributeKindForName(b'byval', 5)
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Func(); fn.ref = f; fn.name = self.vname(f); fn.decl = bool(L.LLVMIsDeclaration(f)); fn._blocks=None; fn.mod=self
            fty = L.LLVMGlobalGetValueType(f)
            fn.ret = self.type(L.LLVMGetReturnType(fty)); fn.vararg = bool(L.LLVMIsFunctionVarArg(fty))
            fn.file=''; fn.line=0; fn.dem=fn.name; fn.info=None
            sp = L.LLVMGetSubprogram(f)
            if sp:
                df = L.LLVMDIScopeGetFile(sp)
                if df:
                    u=U(); p=L.LLVMDIFileGetFilename(df, byref(u)); fn.file=_str(p,u.value)
                    if not fn.file.startswith('/'):
                        p=L.LLVMDIFileGetDirectory(df, byref(u)); fn.file=_str(p,u.value)+'/'+fn.file
                fn.line=L.LLVMDISubprogramGetLine(sp)
            self.funcs[fn.name]=fn; self.byref[f]=fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            go = Global(); go.ref=g; go.name=self.vname(g); go.ty=self.type(L.LLVMGlobalGetValueType(g)); go.mod=self
            go.const=bool(L.LLVMIsGlobalConstant(g)); go.decl=bool(L.LLVMIsDeclaration(g))
            self.globals[go.name]=go; self.byref[g]=go
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[a]=L.LLVMAliasGetAliasee(a); 
            a = L.LLVMGetNextGlobalAlias(a)
    def vname(self, v):
        n=SZ(); p=L.LLVMGetValueName2(v, byref(n)); return _str(p,n.value)
    def type(self, t):
        r = self.types.get(t)
        if r is not None: return r
        k = L.LLVMGetTypeKind(t)
        o = Type(); o.ref=t; o.bits=0; o.elems=(); o.offs=(); o.n=0; o.size=0; o.store=0; o.align=1
        if k==8: o.kind='int'; o.bits=L.LLVMGetIntTypeWidth(t)
        elif k==2: o.kind='fp'; o.bits=32
        elif k==3: o.kind='fp'; o.bits=64
        elif k==4: o.kind='fp'; o.bits=80
        elif k==1: o.kind='fp'; o.bits=16
        elif k==12: o.kind='ptr'; o.bits=64
        elif k==10:
            o.kind='struct'; n=L.LLVMCountStructElementTypes(t)
            self.types[t]=o
            o.elems=tuple(self.type(L.LLVMStructGetTypeAtIndex(t,i)) for i in range(n)); o.n=n
            try: o.offs=tuple(L.LLVMOffsetOfElement(self.dl,t,i) for i in range(n))
            except Exception: pass
        elif k==11: o.kind='array'; o.n=L.LLVMGetArrayLength2(t); o.elems=(self.type(L.LLVMGetElementType(t)),)
        elif k==13: o.kind='vector'; o.n=L.LLVMGetVectorSize(t); o.elems=(self.type(L.LLVMGetElementType(t)),)
        elif k==0: o.kind='void'
        elif k==7: o.kind='label'
        elif k==9: o.kind='func'
        elif k==14: o.kind='metadata'
        elif k==16: o.kind='token'
        else: o.kind='?%d'%k
        if o.kind in('int','fp','ptr','struct','array','vector') :
            o.size=L.LLVMABISizeOfType(self.dl,t); o.store=L.LLVMStoreSizeOfType(self.dl,t); o.align=L.LLVMABIAlignmentOfType(self.dl,t)
        self.types[t]=o
        return o
    # ---- constants
    def const(self, v):
        k = L.LLVMGetValueKind(v); ty = self.type(L.LLVMTypeOf(v))
        if k==VK_ConstInt:
            if ty.bits<=64: return Const('int',ty,L.LLVMConstIntGetZExtValue(v))
            p=L.LLVMPrintValueToString(v); s=_str(p); return Const('int',ty,int(s.split()[-1])&((1<<ty.bits)-1))
        if k==VK_ConstFP:
            lose=I(); return Const('fp',ty,L.LLVMConstRealGetDouble(v,byref(lose)))
        if k==VK_ConstNull: return Const('null',ty,None)
        if k in(VK_Undef,VK_Poison): return Const('undef',ty,None)
        if k==VK_AggZero: return Const('zero',ty,None)
        if k==VK_Function: return Const('func',ty,self.byref[v])
        if k==VK_GlobalVariable: return Const('global',ty,self.byref[v])
        if k==VK_GlobalAlias: return self.const(self.aliases[v])
        if k in(VK_ConstantArray,VK_ConstantStruct,VK_ConstantVector):
            return Const('agg',ty,[self.const(L.LLVMGetOperand(v,i)) for i in range(L.LLVMGetNumOperands(v))])
        if k in(VK_CDArray,VK_CDVector):
            if k==VK_CDArray and L.LLVMIsConstantString(v):
                n=SZ(); p=L.LLVMGetAsString(v,byref(n)); return Const('bytes',ty,ctypes.string_at(p,n.value))
            return Const('agg',ty,[self.const(L.LLVMGetElementAsConstant(v,i)) for i in range(ty.n)])
        if k==VK_ConstantExpr:
            op=OPN.get(L.LLVMGetConstOpcode(v)); ops=[self.const(L.LLVMGetOperand(v,i)) for i in range(L.LLVMGetNumOperands(v))]
            x=None
            if op=='gep': x=self.type(L.LLVMGetGEPSourceElementType(v))
            elif op=='icmp': x=ICMP[L.LLVMGetICmpPredicate(v)]
            return Const('expr',ty,(op,ops,x))
        if k==VK_InlineAsm: return Const('asm',ty,None)
        return Const('?%d'%k,ty,None)
    # ---- functions
    def blocks(self, fn):
        if fn._blocks is not None: return fn._blocks
        f=fn.ref; ids={}
        n=0
        fn.params=[]; fn.param_tys=[]
        for i in range(L.LLVMCountParams(f)):
            p=L.LLVMGetParam(f,i); ids[p]=n; fn.params.append(n); fn.param_tys.append(self.type(L.LLVMTypeOf(p))); n+=1
        bbs=[]; bidx={}
        b=L.LLVMGetFirstBasicBlock(f)
        while b:
            bidx[L.LLVMBasicBlockAsValue(b)]=len(bbs); bbs.append(b)
            ins=L.LLVMGetFirstInstruction(b)
            while ins:
                ids[ins]=n; n+=1
                ins=L.LLVMGetNextInstruction(ins)
            b=L.LLVMGetNextBasicBlock(b)
        def opnd(v):
            r=ids.get(v)
            if r is not None: return Reg(r)
            if v in bidx: return bidx[v]
            return self.const(v)
        BV=L.LLVMBasicBlockAsValue
        blocks=[]
        for i,b in enumerate(bbs):
            B=Block(); B.idx=i; B.insts=[]; B.phis=[]; B.succs=[]; B.name=''; B.preds=[]; B.rpo=None; B.line=0
            ins=L.LLVMGetFirstInstruction(b)
            while ins:
                oc=L.LLVMGetInstructionOpcode(ins); op=OPN.get(oc,'op%d'%oc)
                o=Inst(); o.op=op; o.dst=ids[ins]; o.ty=self.type(L.LLVMTypeOf(ins)); o.x=None; o._ref=ins
                o.line=L.LLVMGetDebugLocLine(ins) if True else 0
                if o.line and not B.line: B.line=o.line
                o.file=None
                no=L.LLVMGetNumOperands(ins)
                if op=='phi':
                    o.ops={bidx[BV(L.LLVMGetIncomingBlock(ins,j))]:opnd(L.LLVMGetIncomingValue(ins,j)) for j in range(L.LLVMCountIncoming(ins))}
                    B.phis.append(o)
                    ins=L.LLVMGetNextInstruction(ins); continue
                if op in('call','invoke'):
                    na=L.LLVMGetNumArgOperands(ins)
                    cv=L.LLVMGetCalledValue(ins)
                    o.ops=[opnd(L.LLVMGetOperand(ins,j)) if self.type(L.LLVMTypeOf(L.LLVMGetOperand(ins,j))).kind!='metadata' else None for j in range(na)]
                    callee=opnd(cv) if (cv in ids or L.LLVMGetValueKind(cv)!=VK_Instruction) else opnd(cv)
                    argtys=[self.type(L.LLVMTypeOf(L.LLVMGetOperand(ins,j))) for j in range(na)]
                    byval={}
                    for j in range(na):
                        if argtys[j].kind=='ptr':
                            at=L.LLVMGetCallSiteEnumAttribute(ins,j+1,self.byval)
                            if at: byval[j]=self.type(L.LLVMGetTypeAttributeValue(at))
                    nd=ud=None
                    if op=='invoke':
                        nd=bidx[BV(L.LLVMGetNormalDest(ins))]; ud=bidx[BV(L.LLVMGetUnwindDest(ins))]; B.succs=[nd,ud]
                    o.x=(callee,argtys,byval,nd,ud)
                elif op=='br':
                    if no==1: o.ops=[bidx[L.LLVMGetOperand(ins,0)]]; B.succs=[o.ops[0]]
                    else:
                        t=bidx[BV(L.LLVMGetSuccessor(ins,0))]; e=bidx[BV(L.LLVMGetSuccessor(ins,1))]
                        o.ops=[opnd(L.LLVMGetOperand(ins,0)),t,e]; B.succs=[t,e] if t!=e else [t]
                elif op=='switch':
                    c=opnd(L.LLVMGetOperand(ins,0)); dflt=bidx[BV(L.LLVMGetSuccessor(ins,0))]
                    cases=[]
                    ns=L.LLVMGetNumSuccessors(ins)
                    for j in range(1,ns):
                        cases.append((self.const(L.LLVMGetOperand(ins,2*j)).v,bidx[BV(L.LLVMGetSuccessor(ins,j))]))
                    o.ops=[c]; o.x=(dflt,cases,self.type(L.LLVMTypeOf(L.LLVMGetOperand(ins,0))))
                    B.succs=list(dict.fromkeys([dflt]+[d for _,d in cases]))
                elif op=='landingpad':
                    o.ops=[]
                    o.x=(bool(L.LLVMIsCleanup(ins)),[self.const(L.LLVMGetClause(ins,j)) for j in range(L.LLVMGetNumClauses(ins))])
                else:
                    o.ops=[opnd(L.LLVMGetOperand(ins,j)) for j in range(no)]
                    if op=='icmp': o.x=(ICMP[L.LLVMGetICmpPredicate(ins)],self.type(L.LLVMTypeOf(L.LLVMGetOperand(ins,0))))
                    elif op=='fcmp': o.x=(FCMP[L.LLVMGetFCmpPredicate(ins)],self.type(L.LLVMTypeOf(L.LLVMGetOperand(ins,0))))
                    elif op=='alloca': o.x=self.type(L.LLVMGetAllocatedType(ins))
                    elif op=='gep': o.x=(self.type(L.LLVMGetGEPSourceElementType(ins)),[self.type(L.LLVMTypeOf(L.LLVMGetOperand(ins,j))) for j in range(1,no)])
                    elif op in('extractvalue','insertvalue'):
                        ip=L.LLVMGetIndices(ins); o.x=[ip[j] for j in range(L.LLVMGetNumIndices(ins))]
                    elif op=='atomicrmw': o.x=(RMW[L.LLVMGetAtomicRMWBinOp(ins)],)
                    elif op=='shufflevector': o.x=[L.LLVMGetMaskValue(ins,j) for j in range(L.LLVMGetNumMaskElements(ins))]
                    elif op in('trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','ptrtoint','inttoptr','bitcast','store','ret','fneg','freeze','select') or True:
                        o.x=[self.type(L.LLVMTypeOf(L.LLVMGetOperand(ins,j))) for j in range(no)]
                B.insts.append(o)
                ins=L.LLVMGetNextInstruction(ins)
            blocks.append(B)
        for B in blocks:
            for s in B.succs: blocks[s].preds.append(B.idx)
        fn._blocks=blocks
        rt={}
        for p,t in zip(fn.params,fn.param_tys): rt[p]=t
        for B in blocks:
            for i in B.phis+B.insts: rt[i.dst]=i.ty
        fn.regty=rt
        self._order(fn)
        return blocks
    def locfile(self, inst):
        u=U(); p=L.LLVMGetDebugLocFilename(inst._ref, byref(u))
        return _str(p,u.value) if p else ''
    def _order(self, fn):
        bl=fn._blocks; n=len(bl)
        # plain RPO for dominators
        def rpo_with(key):
            seen=[False]*n; post=[]
            st=[(0,iter(key(0)))]; seen[0]=True
            while st:
                b,it=st[-1]
                for s in it:
                    if not seen[s]:
                        seen[s]=True; st.append((s,iter(key(s)))); break
                else:
                    post.append(b); st.pop()
            return post[::-1]
        rpo=rpo_with(lambda b: bl[b].succs)
        num={b:i for i,b in enumerate(rpo)}
        idom={0:0}
        ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                new=None
                for p in bl[b].preds:
                    if p in idom and p in num:
                        if new is None: new=p
                        else:
                            x,y=p,new
                            while x!=y:
                                while num[x]>num[y]: x=idom[x]
                                while num[y]>num[x]: y=idom[y]
                            new=x
                if idom.get(b)!=new: idom[b]=new; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==0: return False
                b=idom[b]
        loops={}
        for b in rpo:
            for s in bl[b].succs:
                if dom(s,b):
                    body=loops.setdefault(s,{s}); st=[b]
                    while st:
                        x=st.pop()
                        if x not in body:
                            body.add(x); st.extend(p for p in bl[x].preds if p in num)
        fn.loops=loops
        # order with loop bodies contiguous: visit loop-leaving successors first
        def key(b):
            inl=[h for h,body in loops.items() if b in body]
            def depth(s): return sum(1 for h in inl if s in loops[h])
            return sorted(bl[b].succs,key=depth)
        r2=rpo_with(key)
        for i,b in enumerate(r2): bl[b].rpo=i
        for b in bl:
            b.loop_header = b.idx in loops
            if b.rpo is None: b.rpo=10**6
        # liveness
        def regs(o, acc):
            if isinstance(o,Reg): acc.add(o.i)
        use=[set() for _ in bl]; de=[set() for _ in bl]; phiuse={}
        for B in bl:
            u=set(); d=set()
            for p in B.phis:
                d.add(p.dst)
                for pb,o in p.ops.items():
                    if isinstance(o,Reg): phiuse.setdefault((pb,B.idx),set()).add(o.i)
            for i in B.insts:
                acc=set()
                for o in (i.ops or []): regs(o,acc)
                if i.op in('call','invoke'): regs(i.x[0],acc)
                u|=(acc-d); d.add(i.dst)
            use[B.idx]=u; de[B.idx]=d
        live=[set() for _ in bl]
        ch=True
        while ch:
            ch=False
            for b in reversed(r2):
                out=set()
                for s in bl[b].succs:
                    out|=live[s]
                    out|=phiuse.get((b,s),set())
                nl=use[b]|(out-de[b])
                # phi dsts of b defined at entry
                if nl!=live[b]: live[b]=nl; ch=True
        for B in bl:
            B.livein=frozenset(live[B.idx]|{p.dst for p in B.phis})
