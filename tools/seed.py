#!/usr/bin/env python3
"""seed.py SPEC.py [--keep-anyway]: builds one planted change, confirms it and stores it under /verif/seeded/<id>/.
SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new), ...], PHP (demo script; exits 0 when right), and optionally SH.
Confirms: applies, builds, keeps the stable tests, demo ok before / failing after; then reports which checks fire."""
import sys, os, json, subprocess, importlib.util, shutil
V='/verif'; R='/repo'
def sh(c, t=300):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, cwd=R, errors='replace')
    except subprocess.TimeoutExpired: 
        class X: returncode=124; stdout='timeout'
        return X
spec=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
assert not sh('git status --porcelain --untracked-files=no').stdout.strip(), 'repo dirty'
tmp='/tmp/w/seed-'+m.ID; shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
open(tmp+'/demo.php','w').write(m.PHP)
open(tmp+'/demo.sh','w').write(getattr(m,'SH','''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 120 php8.3 -n -d extension="$PWD/modules/teds.so" "$D/demo.php"
'''))
ok=True
sh('bash /opt/vp/build.sh')
r=sh('bash %s/demo.sh'%tmp)
if r.returncode: print('DEMO FAILS ON CLEAN TREE', r.returncode, r.stdout[-1500:]); sys.exit(1)
try:
    for f,a,b in m.EDITS:
        p=os.path.join(R,f); s=open(p).read()
        if s.count(a)!=1: print('EDIT mismatch',f,s.count(a)); sys.exit(1)
        open(p,'w').write(s.replace(a,b))
    open(tmp+'/patch.diff','w').write(sh('git diff').stdout)
    r=sh('bash /opt/vp/build.sh')
    if r.returncode: print('BUILD FAILS',r.stdout[-2000:]); sys.exit(1)
    sh('bash /opt/vp/test.sh /tmp/w/seedt.json')
    b=json.load(open('/opt/vp/BASELINE.json')); st=set(b.get('stable') or b.get('passed') or b)
    miss=st-set(json.load(open('/tmp/w/seedt.json'))['passed'])
    if miss: print('TESTS FAIL',sorted(miss)[:5]); ok=False
    r=sh('bash %s/demo.sh'%tmp)
    if r.returncode==0: print('DEMO PASSES WITH PATCH', r.stdout[-800:]); ok=False
    else: print('demo rc',r.returncode, r.stdout[-300:].strip())
    man=json.load(open(V+'/MANIFEST.json')) if os.path.exists(V+'/MANIFEST.json') else {'checks':[]}
    props=[c['property'] for c in man['checks']] or ['P01']
    from concurrent.futures import ThreadPoolExecutor
    def one(p):
        q=subprocess.run(['python3',V+'/check.py',p,'--evidence','/tmp/w/ev'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); return p,q.returncode,q.stdout
    one(m.PROP)
    with ThreadPoolExecutor(6) as ex: out=list(ex.map(one,props))
    caught=[p for p,rc,_ in out if rc==1]; broken=[p for p,rc,_ in out if rc not in(0,1)]
    print('%s [%s] %s; caught by %s%s'%(m.ID,m.PROP,'CAUGHT' if m.PROP in caught else 'MISSED',caught,' BROKEN %s'%broken if broken else ''))
    for p,rc,o in out:
        if rc: print('   ',p,'\n      '.join(l[:230] for l in o.strip().split('\n')[:4]))
finally:
    sh('git checkout -- .'); sh('bash /opt/vp/build.sh')
if ok or '--keep-anyway' in sys.argv:
    d=V+'/seeded/'+m.ID; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for f in ('patch.diff','demo.sh','demo.php'): shutil.copy(tmp+'/'+f,d)
    json.dump({'property':m.PROP,'needs':m.NEEDS,'what_it_breaks':m.BREAKS},open(d+'/meta.json','w'),indent=1)
    print('kept in',d)
shutil.rmtree(tmp)
