#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--proof NAME] [-v]: decide one property by discharging its contracts against /repo's working tree."""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); REPO=os.environ.get('VP_REPO','/repo')
TIER=os.environ.get('VERIF_TIER','quick'); SEED=int(os.environ.get('VERIF_SEED','1') or 1)
PY='python3-vt'
NCPU=min(8,os.cpu_count() or 4)

def sh(cmd,tmo=600):
    p=subprocess.run(cmd,capture_output=True,text=True,timeout=tmo)
    return p.returncode,p.stdout,p.stderr

def parse(path):
    """annotations of a contract file"""
    txt=open(path).read(); flags=[]; proofs={}; assumptions=[]; nlibs=[]; srcs=[]; dflt={}
    for l in txt.split('\n'):
        m=re.match(r'\s*//@(\w+)\s*(.*)$',l)
        if not m: continue
        k,v=m.group(1),m.group(2).strip().replace('/repo',REPO)
        if k=='flags': flags+=v.split()
        elif k=='libs': nlibs+=v.split()
        elif k=='src': srcs+=v.split()
        elif k=='assume': assumptions.append(v)
        elif k=='default':
            for mm in re.finditer(r'(\w+)=("[^"]*"|\S+)',v): dflt[mm.group(1)]=mm.group(2).strip('"')
        elif k=='proof':
            name,_,rest=v.partition(' ')
            ann={}
            for mm in re.finditer(r'(\w+)=("[^"]*"|\S+)',rest): ann[mm.group(1)]=mm.group(2).strip('"')
            proofs[name]=ann
    for m in re.finditer(r'PROOF\((\w+)\)',txt):
        proofs.setdefault('proof_'+m.group(1),{})
    for k in list(proofs):
        if not k.startswith('proof_'): 
            a=proofs.pop(k); d=proofs.setdefault('proof_'+k,{}); d.update(a)
    proofs={k:dict(dflt,**v) for k,v in proofs.items() if re.search(r'PROOF\(%s\)'%k[6:],txt)}
    return dict(path=path,flags=flags,proofs=proofs,assumptions=assumptions,libs=nlibs,srcs=srcs)

def gen_config(d):
    os.makedirs(d+'/include/aqsis',exist_ok=True)
    t=open(REPO+'/include/aqsis/config.h.in.cmake').read()
    t=t.replace('#cmakedefine AQSIS_HAVE_STDINT_H','#define AQSIS_HAVE_STDINT_H').replace('${AQSIS_SYSTEM_TYPE}','POSIX')
    open(d+'/include/aqsis/config.h','w').write(t)
    t=open(REPO+'/include/aqsis/version.h.in.cmake').read()
    for k,v in dict(VERSION_MAJOR='1',VERSION_MINOR='8',VERSION_BUILD='4',BUILDTYPE='',SCM_REVISION='0').items(): t=t.replace('${%s}'%k,v)
    open(d+'/include/aqsis/version.h','w').write(t)

def common_flags(d,h):
    return (['-DVP_THOROUGH'] if TIER=='thorough' else [])+['-std=gnu++17','-w','-DNDEBUG','-ffp-contract=off','-fno-access-control','-I'+VERIF+'/lib','-I'+VERIF+'/contracts','-I'+REPO+'/include','-I'+d+'/include','-I'+REPO]+h['flags']

PASSES='function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,instsimplify,sroa,loop-simplify)'
def build_bc(d,h,priv=True):
    base=os.path.basename(h['path'])[:-4]; bc='%s/%s.bc'%(d,base); o='%s/%s.opt.bc'%(d,base)
    outs=[]
    for i,s in enumerate([h['path']]+h['srcs']):
        out='%s/%s_%d.bc'%(d,base,i); outs.append(out)
        rc,so,se=sh(['clang++']+common_flags(d,h)+(['-DVP_PRIV'] if priv else [])+['-DVP_BC','-O1','-Xclang','-disable-llvm-passes','-D_GLIBCXX_EXTERN_TEMPLATE=0','-fno-vectorize','-gline-tables-only','-emit-llvm','-c',s,'-o',out])
        if rc: return None,se
    if len(outs)>1:
        rc,so,se=sh(['llvm-link']+outs+['-o',bc])
        if rc: return None,se
    else: bc=outs[0]
    rc,so,se=sh(['opt','-passes='+PASSES,bc,'-o',o])
    if rc: return None,se
    return o,''
def build_native(d,h,priv=True):
    base=os.path.basename(h['path'])[:-4]; exe='%s/%s.native'%(d,base)
    opts=['g++']+common_flags(d,h)+(['-DVP_PRIV'] if priv else [])+['-O1','-g','-fsanitize=address','-fno-omit-frame-pointer','-D_GLIBCXX_ASSERTIONS','-rdynamic']
    tail=['-o',exe,'-ldl','-pthread']+h['libs']
    if any('ignore-all' in l for l in h['libs']):
        # compiled once; symbols of code outside the contract which the data relocations need are given empty definitions
        objs=[]
        for i,f in enumerate([h['path']]+h['srcs']+[VERIF+'/lib/vp_native.cpp']):
            o='%s/%s.n%d.o'%(d,base,i); rc,so,se=sh(opts+['-c',f,'-o',o])
            if rc: return None,se
            objs.append(o)
        rc,so,se=sh(opts+objs+tail)
        if rc==0:
            _,so2,se2=sh(['ldd','-d',exe]); und=sorted(set(re.findall(r'undefined symbol:\s*(\S+)',so2+se2)))
            if und:
                st='%s/%s.stubs.s'%(d,base); open(st,'w').write('.data\n.balign 16\n'+''.join('.globl %s\n%s: .zero 256\n'%(u,u) for u in und)+'.section .note.GNU-stack,"",@progbits\n')
                rc,so,se=sh(opts+objs+[st]+tail)
    else: rc,so,se=sh(opts+[h['path']]+h['srcs']+[VERIF+'/lib/vp_native.cpp']+tail)
    if rc: return None,se
    return exe,''

def merge(rs):
    """results of the shards of one proof (a partition of its first case split)"""
    r=rs[0]
    for x in rs[1:]:
        for k in('obligations','discharged','insts','cases'): r[k]+=x[k]
        r['solver_s']+=x['solver_s']; r['wall']=max(r.get('wall',0),x.get('wall',0))
        for k in('failed','unknown','unwind'): r[k]+=x[k]
        for k in('backends','kinds','labels'):
            for a,b in x[k].items(): r[k][a]=r[k].get(a,0)+b
        for a,b in x['covers'].items(): r['covers'][a]=r['covers'].get(a) or b
        for k in('functions','trusted'): r[k]=sorted(set(r[k])|set(x[k]))
        r['error']=r['error'] or x['error']
    return r
class Sharded:
    def __init__(self,fs): self.fs=fs
    def result(self): return merge([f.result() for f in self.fs])
def run_proof(d,bc,proof,ann,budget,obl_budget,verbose):
    tag='%s.%s'%(proof,ann.get('shard',0)); a='%s/%s.args.json'%(d,tag); o='%s/%s.res.json'%(d,tag)
    json.dump(dict(bc=bc,proof=proof,ann=ann,budget=budget,obl_budget=obl_budget,out=o,verbose=verbose),open(a,'w'))
    try:
        p=subprocess.run([PY,HERE+'/prove.py',a],capture_output=True,text=True,timeout=budget+obl_budget+90)
        err=p.stderr
    except subprocess.TimeoutExpired: err='timeout'
    if verbose and err: sys.stderr.write(err)
    if os.path.exists(o):
        r=json.load(open(o))
        if r is not None: return r
    return dict(proof=proof,obligations=0,discharged=0,failed=[],unknown=[],unwind=[],covers={},functions=[],solver_s=0,backends={},error='engine died: '+err[-400:],trusted=[],bounded=None,insts=0,kinds={},cases=0,labels={},mode=ann.get('mode','fp'),wall=0)

ENV=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1')
def native_random(exe,proof,seed,iters,secs,out):
    if os.path.exists(out): os.unlink(out)
    try: p=subprocess.run([exe,proof,'random',str(seed),str(iters),str(secs),out],capture_output=True,text=True,timeout=secs+120,env=ENV,errors='replace')
    except subprocess.TimeoutExpired: return None,'timeout',0
    m=re.search(r'NATIVE-STATS run=(\d+)',p.stdout); n=int(m.group(1)) if m else 0
    m=re.search(r'NATIVE-FAIL (.*)',p.stdout)
    if m: return False,m.group(1)+('\n'+p.stderr[:2500] if 'sanit' in m.group(1) or 'crash' in m.group(1) else ''),n
    if p.returncode==0: return True,'',n
    return None,'native exit %d %s'%(p.returncode,p.stderr[-300:]),n
def native_replay(exe,proof,inp):
    try: p=subprocess.run([exe,proof,'replay',inp],capture_output=True,text=True,timeout=120,env=ENV,errors='replace')
    except subprocess.TimeoutExpired: return None,'timeout'
    m=re.search(r'NATIVE-FAIL (.*)',p.stdout)
    if m: return True,m.group(1)+('\n'+p.stderr[:2500] if 'sanit' in m.group(1) else '')
    return False,p.stdout.strip()[-200:]

def load_known():
    r=[]
    p=VERIF+'/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'finding: property=(\S+) proof=(\S+) label="([^"]*)"\s*(.*)',l)
            if m: r.append(m.groups())
    return r

def main():
    pid=sys.argv[1]; verbose='-v' in sys.argv; only=None
    if '--proof' in sys.argv: only=sys.argv[sys.argv.index('--proof')+1]
    keep='--keep' in sys.argv
    t0=time.time()
    files=sorted(glob.glob(VERIF+'/contracts/%s.cpp'%pid)+glob.glob(VERIF+'/contracts/%s_*.cpp'%pid))
    if not files: print('no contracts for',pid); return 2
    hs=[parse(f) for f in files]
    d=tempfile.mkdtemp(prefix='vp_%s_'%pid)
    quick=TIER!='thorough'
    nat_secs=3 if quick else 40
    try:
        gen_config(d)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fb=[ex.submit(build_bc,d,h) for h in hs]; fn=[ex.submit(build_native,d,h) for h in hs]
            for h,b,n in zip(hs,fb,fn):
                h['bc'],e1=b.result(); h['exe'],e2=n.result()
                if not h['bc'] or not h['exe']:
                    # contracts guarded by VP_PRIV name internals of the code; without them the public contracts still decide
                    h['nopriv']=(e1 or e2)[:1500]
                    h['bc'],e1=build_bc(d,h,False); h['exe'],e2=build_native(d,h,False)
                if not h['bc'] or not h['exe']:
                    os.makedirs(VERIF+'/replays',exist_ok=True)
                    rp='%s/replays/%s-%s-interface.txt'%(VERIF,pid,os.path.basename(h['path']))
                    open(rp,'w').write('# contract file %s no longer compiles against the source: its obligations cannot be discharged\n%s\n'%(h['path'],(e1 or e2)[:8000]))
                    print('contract file %s does not compile against the current source\n%s'%(h['path'],(e1 or e2)[:1500]))
                    h['broken']=rp
            t1=time.time()
            jobs=[]
            for h in hs:
                if h.get('broken'): continue
                for p,ann in h['proofs'].items():
                    if only and p!=only and p!='proof_'+only: continue
                    if ann.get('tier')=='thorough' and quick: continue
                    budget=float(ann.get('budget',150 if quick else 600)); ob=float(ann.get('obl_budget',60 if quick else 300))
                    jobs.append((h,p,ann,Sharded([ex.submit(run_proof,d,h['bc'],p,dict(ann,shard=i),budget,ob,verbose) for i in range(int(ann.get('shards',1)))])))
            jobs=[(h,p,ann,f,ex.submit(native_random,h['exe'],p,SEED,10**9 if 'iters' not in ann else int(ann['iters']),nat_secs,'%s/%s.rnd'%(d,p)) if ann.get('native')!='0' and not h.get('nopriv') else None) for h,p,ann,f in jobs]
            results=[(h,p,ann,f.result(),nf.result() if nf else (True,'',0)) for h,p,ann,f,nf in jobs]
            fallback={}
            for h,p,ann,r,(nok,nmsg,nn) in results:
                if nok is not False and (r['failed'] or r['unknown'] or r['unwind'] or r['error']) and ann.get('native')!='0' and not str(r['error']).startswith('absent'):
                    fallback[p]=ex.submit(native_random,h['exe'],p,SEED+1000,10**9,25 if quick else 90,'%s/%s.fb'%(d,p))
            fallback={k:v.result() for k,v in fallback.items()}
        known=load_known(); viol=[]; undecided=[]; kf=[]; vac=[]
        os.makedirs(VERIF+'/replays',exist_ok=True)
        natn=0
        for h in hs:
            if h.get('broken'): viol.append((h['broken'],' no-failing-input-found'))
        for h,p,ann,r,(nok,nmsg,nn) in results:
            natn+=nn
            rp='%s/replays/%s-%s.txt'%(VERIF,pid,p)
            if verbose: print('%-40s obl %d/%d failed %d unk %d unwind %d err=%s solver %.1fs wall %.1fs insts %d cases %d native %s(%d) covers %s'%(p,r['discharged'],r['obligations'],len(r['failed']),len(r['unknown']),len(r['unwind']),r['error'],r['solver_s'],r.get('wall',0),r['insts'],r['cases'],nok,nn,r['covers']))
            def is_known(label):
                for k in known:
                    if k[0]==pid and k[1]==p and k[2]==label: return k
                return None
            confirmed=None; unconf=[]
            for f in r['failed']:
                k=is_known(f['label'])
                if k: 
                    if k not in kf: kf.append(k)
                    continue
                inp='%s/%s.cex'%(d,p)
                with open(inp,'w') as fo:
                    for a,b in f['inputs'].items(): fo.write('%s %s\n'%(a,b))
                ok,msg=native_replay(h['exe'],p,inp)
                if verbose: print('   FAILED',f['label'],f['where'],'replay:',msg[:200], list(f['inputs'].items())[:12])
                if ok:
                    confirmed=(f,msg,open(inp).read()); break
                unconf.append((f,msg))
            if not confirmed and nok is False:
                lab=nmsg.split('\n')[0]
                if not is_known(lab):
                    confirmed=(dict(label=lab,where='found by native execution of the contract',backend='native'),nmsg,open('%s/%s.rnd'%(d,p)).read())
            if not confirmed and p in fallback:
                ok,msg,n=fallback[p]; natn+=n
                if ok is False and not is_known(msg.split('\n')[0]) and (unconf or r['unknown'] or r['unwind'] or r['error']):
                    confirmed=(dict(label=msg.split('\n')[0],where='found by native execution of the contract',backend='native'),msg,open('%s/%s.fb'%(d,p)).read())
            if confirmed:
                f,msg,inp=confirmed
                with open(rp,'w') as fo:
                    fo.write('# property %s, contract %s (%s)\n# failed obligation: %s\n# at: %s\n# backend: %s\n# outcome on the real code (g++ build of /repo with this contract): %s\n# inputs (replay: engine/check.py builds %s natively; run <native> %s replay <this file>)\n'%(pid,p,h['path'],f['label'],f['where'],f['backend'],msg.replace('\n','\n#   '),os.path.basename(h['path']),p))
                    fo.write(inp)
                viol.append((rp,''))
            elif unconf:
                f,msg=unconf[0]
                with open(rp,'w') as fo:
                    fo.write('# property %s, contract %s (%s)\n# failed obligation: %s\n# at: %s\n# the verifier (%s) refutes this obligation; its model below does not fail when replayed natively (%s)\n'%(pid,p,h['path'],f['label'],f['where'],f['backend'],msg))
                    for a,b in f['inputs'].items(): fo.write('%s %s\n'%(a,b))
                viol.append((rp,' no-failing-input-found'))
            elif r['unknown'] or r['unwind'] or r['error']:
                undecided.append((p,r['error'] or (r['unknown'] or r['unwind'])[0]))
            else:
                if r['obligations']==0 or (not r['labels'] and not r['failed']): vac.append((p,'no obligations'))
                for c,v in r['covers'].items():
                    if v is False and not only: vac.append((p,'cover %s unreachable'%c))
        # ---------------- evidence
        nkf=sum(1 for _,p,_,r,_ in results for f in r['failed'] if (pid,p,f['label']) in [k[:3] for k in known]); obl=sum(r['obligations'] for _,_,_,r,_ in results)-nkf; dis=sum(r['discharged'] for _,_,_,r,_ in results)
        funcs=sorted({f for _,_,_,r,_ in results for f in r['functions']})
        try: dem=subprocess.run(['c++filt'],input='\n'.join(funcs),capture_output=True,text=True).stdout.split('\n')
        except Exception: dem=funcs
        dem=[x for x in dem if x]
        be={}
        for _,_,_,r,_ in results:
            for k,v in r['backends'].items(): be[k]=be.get(k,0)+v
        bounded=sorted({r['bounded'] for _,_,_,r,_ in results if r['bounded']})
        trusted=sorted({t for _,_,_,r,_ in results for t in r['trusted']})
        assum=[a for h in hs for a in h['assumptions']]
        if any(r['mode']=='real' for _,_,_,r,_ in results): assum.append('proofs in mode=real treat machine floating point as exact real arithmetic: '+', '.join(p for _,p,_,r,_ in results if r['mode']=='real'))
        base=['LLVM/clang 18 front end (bitcode of /repo sources, -O1 with passes disabled, then sroa/early-cse/simplifycfg/instsimplify)','/verif/engine VC generator','z3 / cvc5','operator new never fails; little-endian x86-64 data layout']+trusted
        ev=dict(property=pid,tier='quick' if quick else 'thorough',seed=SEED,level='proof',
            coverage=dict(obligations=obl,discharged=dis,checker_cmd='VERIF_TIER=%s python3-vt engine/check.py %s'%('quick' if quick else 'thorough',pid),trusted_base=base,
              proofs=[dict(contract=p,file=os.path.basename(h['path']),mode=r['mode'],obligations=r['obligations'],discharged=r['discharged'],obligation_kinds=r['kinds'],postconditions=r['labels'],reachability={k:bool(v) if v is not None else 'unknown' for k,v in r['covers'].items()},bounded=r['bounded'],cases=r['cases'],ir_instructions=r['insts'],solver_s=round(r['solver_s'],2),status='proved' if not(r['failed'] or r['unknown'] or r['unwind'] or r['error']) and r['obligations']>0 and not r['bounded'] else ('proved within stated bound' if not(r['failed'] or r['unknown'] or r['unwind'] or r['error']) and r['obligations']>0 else 'not proved')) for h,p,ann,r,_ in results],
              functions_under_contract=dem,backends=be,solver_s=round(sum(r['solver_s'] for _,_,_,r,_ in results),2),bounded=bounded,undecided=[str(u) for u in undecided],native_cross_check_runs=natn,known_findings=['%s: %s'%(k[1],k[2]) for k in kf],obligations_refuted_as_known_findings=nkf),
            assumptions=assum,wall_s=round(time.time()-t0,2),violations=len(viol))
        os.makedirs(VERIF+'/evidence',exist_ok=True)
        json.dump(ev,open(VERIF+'/evidence/%s.json'%pid,'w'),indent=1)
        for k in kf: print('KNOWN-FINDING: property=%s %s %s'%(pid,k[2],k[3]))
        for u in undecided: print('UNDECIDED: property=%s contract=%s %s (bounded stand-in: native execution of the contract found no failure; not counted as proved)'%(pid,u[0],u[1]))
        print('%s: %d/%d obligations discharged over %d contracts, %d functions, build %.1fs total %.1fs'%(pid,dis,obl,len(results),len(funcs),t1-t0,time.time()-t0))
        if viol:
            for rp,s in viol: print('VIOLATION property=%s replay=%s%s'%(pid,rp,s))
            return 1
        if vac:
            for v in vac: print('VACUOUS:',v)
            return 2
        if not results: print('no proofs'); return 2
        return 0
    finally:
        if keep: print('kept',d)
        else: shutil.rmtree(d,ignore_errors=True)
if __name__=='__main__': sys.exit(main())
