#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids...]: build seeded/<id>/ from specs (dev helper; not used by checks).
spec entry: dict(id,prop,edits=[(file,old,new)],needs,breaks,demo=C++ text,flags='')"""
import subprocess,sys,os,json,runpy
V='/verif'; R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
specs=runpy.run_path(sys.argv[1])['SEEDS']; want=sys.argv[2:]
DEMO='''#!/bin/bash
# exit 0: property holds on the tree in the current directory; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w -O1 %s -fno-access-control -I"$R"/include -I"$R"/_build/main/include -I"$R" %s "$D"/demo.cpp -o "$T"/demo %s || exit 3
cd "$T" && timeout 60 ./demo
'''
for s in specs:
    if want and s['id'] not in want: continue
    assert sh('git -C /repo status --porcelain').stdout.strip()=='', 'dirty repo'
    d='%s/seeded/%s'%(V,s['id']); os.makedirs(d,exist_ok=True)
    for f,o,n in s['edits']:
        p=R+'/'+f; t=open(p).read(); assert t.count(o)==1,(s['id'],f,t.count(o)); open(p,'w').write(t.replace(o,n))
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    open(d+'/demo.cpp','w').write(s['demo'])
    for n,src in s.get('files',{}).items(): open(d+'/'+n,'w').write(open(src).read())
    fl=s.get('flags','-DAQSIS_RIUTIL_EXPORTS -I"$R"/libs/riutil')
    open(d+'/demo.sh','w').write(DEMO%(s.get('dflags','-DNDEBUG'),fl,s.get('libs','')))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    a=sh('bash %s/demo.sh'%d,cwd=R); 
    sh('git -C /repo apply %s/patch.diff'%d); b=sh('bash %s/demo.sh'%d,cwd=R)
    extra=''
    if os.environ.get('CHECK'):
        c=sh('VERIF_SEED=1 VERIF_TIER=quick python3-vt engine/check.py %s'%s['prop'],cwd=V); extra='check rc=%d %s'%(c.returncode,[l for l in c.stdout.split('\n') if 'VIOL' in l or 'UNDEC' in l])
    sh('git -C /repo checkout -- .')
    print(s['id'],s['prop'],'clean rc',a.returncode,'patched rc',b.returncode,extra,(a.stdout+a.stderr)[-300:] if a.returncode else '',b.stderr[-200:] if b.returncode==3 else '',flush=True)
