"""Run one proof (harness function) to completion: generate obligations and discharge them."""
import sys, os, time, json, subprocess, tempfile, resource, traceback, signal
import z3
from values import *
from execu import *
import run as R
import fieldnf, bvlia
import llvmread as LR

ISTREAM='^_ZNSi3getEv$=>vps_get;^_ZNSi4peekEv$=>vps_peek;^_ZNSi5ungetEv$=>vps_unget;^_ZNSi8readsomeEPcl$=>vps_readsome'
_OSS='_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE'
OSTREAM=';'.join(['^'+_OSS+'C[12]Ev$=>vpo_ctor','^'+_OSS+'D[12]Ev$=>vpo_dtor','^_ZNK'+_OSS[3:]+'3strEv$=>vpo_get','^_ZNSo3putEc$=>vpo_put','^_ZNSo5writeEPKcl$=>vpo_write',
 '^_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc$=>vpo_cstr','^_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c$=>vpo_put','^_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE$=>vpo_str',
 '^_ZNSolsEi$=>vpo_int','^_ZNSolsEm$=>vpo_uint','^_ZNSolsEj$=>vpo_uint','^_ZNSolsE[fd]$=>vpo_real','^_ZNSo9_M_insertIdEERSoT_$=>vpo_real','^_ZNSolsEPFRSt8ios_baseS0_E$=>vpo_manip'])
def opts_from(ann):
    o={}
    for k in('max_inst','max_iter','max_cands','max_states'):
        if k in ann: o[k]=int(ann[k])
    if 'feas_ms' in ann: o['feas_ms']=int(ann['feas_ms'])
    if ann.get('nofeas'): o['nofeas']=True
    if ann.get('splitint'): o['splitint']=int(ann['splitint'])
    if ann.get('replace'):
        ann['replace']=ann['replace'].replace('OSTREAM',OSTREAM).replace('ISTREAM',ISTREAM)
        o['replace']=dict(x.rsplit('=>',1) for x in ann['replace'].split(';') if x)
    if ann.get('cut'): o['cut']=ann['cut']
    if ann.get('nomerge'): o['nomerge']=True
    if ann.get('nonzero'): o['nonzero']=ann['nonzero']
    if ann.get('divzero'): o['divzero']=ann['divzero']
    return o

def model_inputs(e,m,mode):
    out={}
    for name,kind,v in e.inputs:
        if kind=='pick': out[name]=str(v); continue
        x=m.eval(v,model_completion=True)
        try:
            if kind=='bool': out[name]='1' if z3.is_true(x) else '0'
            elif kind[0] in'iu': out[name]='0x%x'%x.as_long()
            elif kind in('f32','f64'):
                b=int(kind[1:])
                if mode=='real':
                    if z3.is_algebraic_value(x): x=x.approx(20)
                    q=Fraction(x.numerator_as_long(),x.denominator_as_long())
                    out[name]='0x%x'%float_bits(float(q) if b==64 else f32(float(q)),b)
                else:
                    bv=z3.simplify(z3.fpToIEEEBV(x))
                    if z3.is_bv_value(bv): out[name]='0x%x'%bv.as_long()
                    else: out[name]='0x7fc00000' if b==32 else '0x7ff8000000000000'
        except Exception as ex: pass
    return out

def uses(e,kinds,seen=None):
    return False

def smt2(axioms,pc,goal):
    s=z3.Solver(); s.add(*axioms); s.add(*pc); s.add(z3.Not(goal) if goal is not False else z3.BoolVal(True))
    return s.to_smt2()

def solve(e,pc,goal,budget):
    """returns (status, backend, model, time) status in proved/sat/unknown"""
    t0=time.time()
    if goal is True: return 'proved','syntactic',None,0
    if goal is False: ng=[]
    else:
        g=z3.simplify(goal)
        if z3.is_true(g): return 'proved','syntactic',None,time.time()-t0
        ng=[z3.Not(g)]
    if e.mode=='real' and goal is not False:
        try: ok,divs=fieldnf.decide(goal)
        except Exception: ok,divs=False,[]
        if ok:
            for d in {x.get_id():x for x in divs}.values():
                if e.opts.get('nonzero')=='assume': e.trusted.add('a divisor met on the path is assumed non-zero'); continue
                s=z3.Solver(); s.set('timeout',3000); s.add(*e.axioms); s.add(*pc); s.add(d==0)
                if s.check()!=z3.unsat: ok=False; break
        if ok: return 'proved','field',None,time.time()-t0
    if e.mode=='real' and ng:
        try: tr=bvlia.translate(list(e.axioms)+list(pc)+ng)
        except Exception: tr=None
        if tr is not None:
            s=z3.Solver(); s.set('timeout',int(min(budget,10)*1000)); s.add(*tr)
            if s.check()==z3.unsat: return 'proved','z3-lia',None,time.time()-t0
            if ext_cvc5(e,[x for x in tr if x is not tr[0]],z3.Not(tr[0]),min(budget,20))=='unsat': return 'proved','cvc5-lia',None,time.time()-t0
    stages=[('z3',None,min(budget,6.0))]
    if e.mode!='real':
        stages.append(('z3-sat','bb',min(budget,30.0)))
        stages.append(('cvc5','ext',budget)); stages.append(('z3','long',budget))
    else:
        stages.append(('cvc5','ext',min(budget,5.0))); stages.append(('z3-nlsat','nra',min(budget,30.0))); stages.append(('cvc5','ext',budget)); stages.append(('z3','long',budget))
    for name,how,tmo in stages:
        if how in(None,'long'):
            s=z3.Solver(); 
        elif how=='bb':
            try: s=z3.TryFor if False else z3.Then('simplify','propagate-values','solve-eqs','elim-uncnstr','simplify','fpa2bv','simplify','ackermannize_bv','bit-blast','sat').solver()
            except z3.Z3Exception: continue
        elif how=='nra':
            s=z3.Then('simplify','propagate-values','solve-eqs','simplify','qfnra-nlsat').solver()
        elif how=='ext':
            r=ext_cvc5(e,pc,goal,tmo)
            if r=='unsat': return 'proved','cvc5',None,time.time()-t0
            continue
        s.set('timeout',int(tmo*1000))
        try:
            s.add(*e.axioms); s.add(*pc); s.add(*ng)
            r=s.check()
        except z3.Z3Exception as ex:
            continue
        if r==z3.unsat: return 'proved',name,None,time.time()-t0
        if r==z3.sat:
            m=s.model()
            if how=='bb' and e.uf: pass
            return 'sat',name,m,time.time()-t0
    return 'unknown','all',None,time.time()-t0

def ext_cvc5(e,pc,goal,tmo):
    try:
        txt=smt2(e.axioms,pc,goal)
    except Exception: return 'unknown'
    logic='ALL'
    txt='(set-logic %s)\n'%logic+txt.replace('(set-logic','; (set-logic')
    with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as f: f.write(txt)
    try:
        p=subprocess.run(['cvc5','--tlimit=%d'%int(tmo*1000),'--fp-exp',f.name],capture_output=True,text=True,timeout=tmo+10)
        o=p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
        return o if o in('sat','unsat') else 'unknown'
    except subprocess.TimeoutExpired: return 'unknown'
    finally: os.unlink(f.name)

def run_ctors(e,st):
    """execute static initialisers of the translation unit"""
    g=e.mod.globals.get('llvm.global_ctors')
    if g is None: return [st]
    c=e.mod.const(LR.L.LLVMGetInitializer(g.ref))
    sts=[st]
    for x in c.v:
        fn=x.v[1].v
        nxt=[]
        for s in sts:
            nxt+=[o[2] for o in e.exec_fn(fn,[],s) if o[0]=='ret']
        sts=nxt
    return sts

def prove(bc,proof,ann,budget,obl_budget,verbose=False):
    z3.set_param('memory_max_size',5000)
    t0=time.time()
    mode=ann.get('mode','fp')
    res={'proof':proof,'mode':mode,'obligations':0,'discharged':0,'failed':[],'unknown':[],'unwind':[],'covers':{},'functions':[],'solver_s':0.0,'backends':{},'error':None,
         'trusted':[],'bounded':ann.get('bounded'),'insts':0,'kinds':{},'cases':0,'labels':{}}
    deadline=t0+budget
    mod=LR.Module(bc)
    shard=int(ann.get('shard',0)); nsh=int(ann.get('shards',1))
    picks=[shard] if nsh>1 else []
    snap=None; sts=None
    seen=set()
    funcs={}; trusted=set(); covers={}
    if proof not in mod.funcs:
        res['error']='absent: the contract names internals that this version of the source does not have'; return res
    try:
        while True:
            if snap is None:
                e=R.Exec(mod,mode=mode,unwind=int(ann.get('unwind',40)),picks=picks,opts=opts_from(ann))
                e.deadline=deadline
                st=State()
                sts=run_ctors(e,st) if ann.get('ctors','1')!='0' else [st]
                if ann.get('setup'):
                    nx=[]
                    for x in sts:
                        for o in e.exec_fn(mod.funcs['setup_'+ann['setup']],[],x):
                            if o[0]!='ret': raise Unsupported('exception in setup')
                            nx.append(o[2])
                    sts=nx
                # engine state after static initialisation, restored for every case
                snap={k:(v.copy() if isinstance(v,(dict,list,set)) else v) for k,v in e.__dict__.items()}
                snap['ninst']=0; snap['obls']=[]; snap['covers']={}
            else:
                e.__dict__.update({k:(v.copy() if isinstance(v,(dict,list,set)) else v) for k,v in snap.items()})
                e.picks=list(picks)
            for s in [x.fork() for x in sts]:
                outs=e.exec_fn(mod.funcs[proof],[],s)
                for k,v,s2 in outs:
                    if k=='exc':
                        e.obls.append(Obligation('no exception escapes (%s)'%v[1],s2.pc,False,proof,'exception'))
            res['cases']+=1
            res['insts']+=e.ninst
            for f,n in e.funcs_seen.items(): funcs[f]=funcs.get(f,0)+n
            trusted|=e.trusted
            for ob in e.obls:
                key=(ob.label,ob.goal if isinstance(ob.goal,bool) else ob.goal.get_id(),tuple(x.get_id() for x in ob.pc)) if True else None
                if res['cases']==1 or True:
                    pass
                res['obligations']+=1
                res['kinds'][ob.kind]=res['kinds'].get(ob.kind,0)+1
                if time.time()>deadline: 
                    res['unknown'].append({'label':ob.label,'where':ob.where,'why':'time budget'}); continue
                stt,be,m,dt=solve(e,ob.pc,ob.goal,min(obl_budget,max(5,deadline-time.time())))
                if verbose and dt>2: print('   slow %.1fs %s %s %s'%(dt,stt,be,ob.label),file=sys.stderr)
                if os.environ.get('VP_DUMP') and dt>2: print('PC',ob.pc,'GOAL',ob.goal if hasattr(ob,'goal') else vars(ob),file=sys.stderr)
                res['solver_s']+=dt
                if stt=='proved':
                    res['discharged']+=1; res['backends'][be]=res['backends'].get(be,0)+1
                    if ob.kind=='assert': res['labels'][ob.label]=res['labels'].get(ob.label,0)+1
                elif stt=='sat':
                    d={'label':ob.label,'where':ob.where,'kind':ob.kind,'inputs':model_inputs(e,m,mode),'backend':be}
                    (res['unwind'] if ob.kind=='unwind' else res['failed']).append(d)
                    if len(res['failed'])>=6: raise StopIteration
                else:
                    res['unknown'].append({'label':ob.label,'where':ob.where,'kind':ob.kind,'why':'solver timeout/unknown'})
                    if len(res['unknown'])>=4: raise StopIteration
            for lab,pcs in e.covers.items():
                if covers.get(lab): continue
                ok=False
                for pc in pcs:
                    s=z3.Solver(); s.set('timeout',10000); s.add(*e.axioms); s.add(*pc)
                    r=s.check()
                    if r==z3.sat: ok=True; break
                    if r==z3.unknown: ok=None
                covers[lab]=ok if ok is not False else covers.get(lab,False)
            # next pick combination
            log=e.pick_log; p=e.picks[:len(log)]
            while p and p[-1]+(nsh if len(p)==1 else 1)>=log[len(p)-1]: p.pop()
            if not p: break
            p[-1]+=nsh if len(p)==1 else 1; picks=p
            if time.time()>deadline: raise Budget('time budget over cases')
    except StopIteration: pass
    except (Unsupported,Budget) as ex:
        res['error']='%s: %s'%(type(ex).__name__,ex)
        if verbose=='vv' or os.environ.get('VP_TB'): traceback.print_exc()
    except z3.Z3Exception as ex:
        res['error']='z3: %s'%ex
        if verbose=='vv' or os.environ.get('VP_TB'): traceback.print_exc()
    except RecursionError as ex:
        res['error']='recursion'
    except Exception as ex:
        res['error']='engine error %s: %s'%(type(ex).__name__,ex)
        if verbose=='vv' or os.environ.get('VP_TB'): traceback.print_exc()
    res['covers']=covers
    res['functions']=sorted(funcs); res['trusted']=sorted(trusted)
    res['wall']=time.time()-t0
    return res

if __name__=='__main__':
    import threading
    args=json.load(open(sys.argv[1]))
    resource.setrlimit(resource.RLIMIT_STACK,(resource.RLIM_INFINITY,resource.RLIM_INFINITY)) if False else None
    threading.stack_size(512*1024*1024)
    out={}
    def go(): out['r']=prove(args['bc'],args['proof'],args['ann'],args['budget'],args['obl_budget'],args.get('verbose'))
    t=threading.Thread(target=go); t.start(); t.join()
    json.dump(out.get('r'),open(args['out'],'w'))
