#!/usr/bin/env python3
"""One-off: derive contracts/ri_gen.h (RI request table: signatures, scopes, ranges, lengths) from the RI specification file ri.xml.
The output is committed; the checks never read ri.xml."""
import xml.etree.ElementTree as ET,re,sys
r=ET.parse('/repo/libs/riutil/ri.xml').getroot()
ps=[p for p in r.findall('Procedures/Procedure') if p.findall('Rib')]
scopes=['BeginEnd','Frame','World','Attribute','Transform','Solid','Object','Motion','Archive']
out=['// generated by tools/gen_ri.py from ri.xml (RI specification table); committed, not regenerated by checks']
def cargs(p):
    return [(a.findtext('Type'),a.findtext('Name'),a) for a in p.findall('Arguments/Argument') if not a.findall('RibValue')]
def formal(t,n):
    if t=='RtTokenOrInt': t='RtToken'
    if t.endswith('Array'): return 'const Ri::%sArray& %s'%(t[2:-5],n)
    t=re.sub(r'Rt(Token|String|Color|Point(?!er)|Matrix|Bound|Basis)',r'RtConst\1',t)
    return '%s %s'%(t,n)
N=len(ps)
out.append('enum { NPROC=%d };'%N)
out.append('static const char* const g_procName[NPROC]={%s};'%','.join('"%s"'%p.findtext('Name') for p in ps))
# recorder
out.append('struct Rec : public Ri::Renderer {\n\tTrace t; int calls; Rec():calls(0){}')
idx={}
for i,p in enumerate(ps):
    idx[p.findtext('Name')]=i
    a=cargs(p); f=[formal(t,n) for t,n,_ in a]; names=[n for _,n,_ in a]
    if p.findall('Arguments/ParamList'): f.append('const Ri::ParamList& pList'); names.append('pList')
    body='begin(%d); '%i
    for t,n,_ in a:
        if t in('RtColor','RtPoint'): body+='t.fl(%s,3); '%n
        elif t=='RtBound': body+='t.fl(%s,6); '%n
        elif t in('RtMatrix','RtBasis'): body+='t.fl(&%s[0][0],16); '%n
        elif t in('RtFilterFunc','RtErrorFunc','RtProcSubdivFunc','RtProcFreeFunc','RtArchiveCallback','RtPointer'): body+='t.p((const void*)%s); '%n
        else: body+='t.put(%s); '%n
    if p.findall('Arguments/ParamList'): body+='t.put(pList); '
    out.append('\tvirtual RtVoid %s(%s){ %s}'%(p.findtext('Name'),', '.join(f),body))
out.append('\tvirtual RtVoid ArchiveRecord(RtConstToken type, const char* string){ begin(1000); t.put(type); t.put(string); }')
out.append('\tvoid begin(int p){ ++calls; t.i(1000000+p); }\n};')
# call with argument record
out.append('static void callProc(int p, Ri::Renderer& r, Args& A){ switch(p){')
useinfo=[]
for i,p in enumerate(ps):
    cnt={'f':0,'i':0,'s':0,'ia':0,'fa':0,'sa':0,'c':0,'b':0,'m':0}
    ex=[]; amap={}
    for t,n,_ in cargs(p):
        def nx(k): v='%s[%d]'%(k,cnt[k]); cnt[k]+=1; return 'A.'+v
        if t=='RtFloat': e=nx('f')
        elif t in('RtInt',): e=nx('i')
        elif t=='RtBoolean': e='(RtBoolean)'+nx('i')
        elif t in('RtToken','RtString','RtTokenOrInt'): e=nx('s')
        elif t=='RtIntArray': e=nx('ia')
        elif t=='RtFloatArray': e=nx('fa')
        elif t in('RtTokenArray','RtStringArray'): e=nx('sa')
        elif t in('RtColor','RtPoint'): e=nx('c')
        elif t=='RtBound': e=nx('b')
        elif t in('RtMatrix','RtBasis'): e=nx('m')
        elif t=='RtFilterFunc': e='vpFilterFunc'
        elif t=='RtErrorFunc': e='vpErrorFunc'
        elif t=='RtProcSubdivFunc': e='vpSubdivFunc'
        elif t=='RtProcFreeFunc': e='vpFreeFunc'
        elif t=='RtArchiveCallback': e='vpArchiveCallback'
        elif t=='RtPointer': e='(RtPointer)g_ptrTarget'
        else: raise Exception(t)
        ex.append(e); amap[n]=e
    if p.findall('Arguments/ParamList'): ex.append('A.pl')
    out.append('\tcase %d: r.%s(%s); return;'%(i,p.findtext('Name'),', '.join(ex)))
    useinfo.append((dict(cnt),amap))
out.append('} }')
for k in('f','i','s','ia','fa','sa','c','b','m'):
    out.append('static const unsigned char g_n_%s[NPROC]={%s};'%(k,','.join(str(u[0][k]) for u in useinfo)))
out.append('static const bool g_hasParams[NPROC]={%s};'%','.join('true' if p.findall('Arguments/ParamList') else 'false' for p in ps))
# scopes (bit order as listed)
m=[]
for p in ps:
    v=[s.tag for s in p.findall('ValidScope/*') if s.tag in scopes]
    m.append(sum(1<<scopes.index(s) for s in v) if v else 0x1ff)
out.append('enum Scope { %s, NSCOPE };'%', '.join('S_'+s for s in scopes))
out.append('static const unsigned g_scopes[NPROC]={%s};'%','.join('0x%x'%x for x in m))
ops={'gt':'>','lt':'<','ge':'>=','le':'<=','ne':'!='}
out.append('static bool rangeOk(int p, const Args& A){ switch(p){')
for i,p in enumerate(ps):
    cs=[]
    for t,n,a in cargs(p):
        rg=a.find('Range')
        if rg is None: continue
        for c in rg:
            lim=c.text.strip()
            lim=useinfo[i][1].get(lim,lim).replace('RI_EPSILON','FLT_EPSILON')
            cs.append('(%s %s %s)'%(useinfo[i][1][n],ops[c.tag],lim))
    if cs: out.append('\tcase %d: return %s;'%(i,' && '.join(cs)))
out.append('\tdefault: return true;\n} }')
for n,i in idx.items(): out.append('enum { P_%s=%d };'%(n,i))
out.append('static const bool g_hasRange[NPROC]={%s};'%','.join('true' if any(a.find('Range') is not None for _,_,a in cargs(p)) else 'false' for p in ps))
# RIB text of a request: argument tokens in the order of the RI specification
out.append('template<class W> static void writeProc(int p, W& w, Args& A){ switch(p){')
for i,p in enumerate(ps):
    n=p.findtext('Name'); amap=useinfo[i][1]; b=[]
    grp=p.findall('Arguments/RibArgsCanBeArray')
    if grp: b.append('w.open();')
    for t,a,x in cargs(p):
        e=amap[a]
        if t in('RtInt','RtBoolean'): b.append('w.I(%s);'%e)
        elif t=='RtFloat': b.append('w.F(%s);'%e)
        elif t in('RtToken','RtString','RtTokenOrInt'): b.append(('w.N(%s);' if x.findall('AltTypeInt') else 'w.S(%s);')%e)
        elif t=='RtIntArray': b.append('w.IA(%s);'%e)
        elif t=='RtFloatArray': b.append('w.FA(%s);'%e)
        elif t in('RtTokenArray','RtStringArray'): b.append('w.SA(%s);'%e)
        elif t=='RtColor' and not grp: b.append('w.fix(%s,3);'%e)
        elif t=='RtPoint': b.append('w.fl(%s,3);'%e)
        elif t=='RtBound': b.append(('w.arr(%s,6);' if n=='Procedural' else 'w.fix(%s,6);')%e)
        elif t=='RtMatrix': b.append('w.arr(&%s[0][0],16);'%e)
        elif t=='RtBasis': b.append('w.basis(&%s[0][0]);'%e)
        elif t=='RtFilterFunc': b.append('w.S("gaussian");')
        elif t=='RtErrorFunc': b.append('w.S("print");')
        elif t in('RtPointer','RtProcFreeFunc','RtArchiveCallback'): pass
        elif t=='RtProcSubdivFunc': pass
        else: raise Exception(t)
    if n=='Procedural': b=['w.proc(A);']
    if grp: b.append('w.close();')
    if p.findall('Arguments/ParamList'): b.append('w.P(A.pl);')
    out.append('\tcase %d: w.R("%s"); %s return;'%(i,n,' '.join(b)))
out.append('} }')
open('/verif/contracts/ri_gen.h','w').write('\n'.join(out)+'\n')
