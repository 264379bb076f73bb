#!/usr/bin/env python3
"""plant.py [ids]: builds /verif/seeded/<id> from bugs*.py and confirms each bug
in a scratch copy: it applies, builds, passes the stable tests, and its demo
tells the two trees apart."""
import glob,json,os,shutil,subprocess,sys
here=os.path.dirname(os.path.abspath(__file__))
W='/tmp/plantwork'; R=W+'/repo'
bugs=[]
for f in sorted(glob.glob(here+'/bugs*.py')):
    ns={}; exec(open(f).read(),ns); bugs+=ns['BUGS']
only=sys.argv[1:]
ids=[b['id'] for b in bugs]; assert len(ids)==len(set(ids)),ids
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
for b in bugs:
    if only and not any(b['id'].startswith(o) for o in only): continue
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    sh(f'cp -a /repo {R}; git -C {R} checkout -q -- .')
    d='/verif/seeded/'+b['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    bad=None
    for f,o,n in b['edits']:
        p=R+'/'+f; s=open(p).read()
        if s.count(o)!=1: bad=f'{f}: {s.count(o)} matches of {o!r}'; break
        open(p,'w').write(s.replace(o,n))
    if bad: print(b['id'],'EDIT',bad); shutil.rmtree(d); continue
    fm=sh(f'gofmt -l {R}/core {R}/pkg {R}/cfg {R}/cmd').stdout
    diff=sh(f'git -C {R} diff').stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo_test.go','w').write('package zzdemo\n'+b['demo'])
    shutil.copy(here+'/util_test.go',d); shutil.copy(here+'/demo.sh',d); os.chmod(d+'/demo.sh',0o755)
    if b.get('race'): open(d+'/race','w').write('')
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    bl=sh(f'cd {R} && go build ./... && go vet ./core/... ./pkg/... 2>&1 | head -0')
    if bl.returncode: print(b['id'],'BUILD',bl.stdout[-600:]); shutil.rmtree(d); continue
    a=sh(f'cd /repo && {d}/demo.sh')
    c=sh(f'cd {R} && {d}/demo.sh')
    msg=[]
    if a.returncode: msg.append('DEMO FAILS ON CLEAN\n'+a.stdout[-800:])
    if not c.returncode: msg.append('DEMO PASSES WITH BUG\n'+c.stdout[-500:])
    elif '--- FAIL' not in c.stdout and 'panic' not in c.stdout and 'RACE' not in c.stdout: msg.append('DEMO odd\n'+c.stdout[-500:])
    if msg: print(b['id'],'BAD','\n'.join(msg),flush=True); shutil.rmtree(d); continue
    # Stable tests with the bug, in /repo (the test script works there).
    s=sh('git -C /repo status --porcelain').stdout
    if s: sys.exit('/repo not clean: '+s)
    try:
        sh(f'git -C /repo apply {d}/patch.diff')
        sh('bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/plant-out.json')
    finally:
        sh('git -C /repo checkout -- .')
    o=json.load(open('/tmp/plant-out.json')); base=json.load(open('/opt/vp/BASELINE.json'))
    want=set(base.get('stable') or base.get('passed') or base.get('tests'))
    miss=sorted(want-set(o['passed']))
    if miss: msg.append('TESTS FAIL '+str(miss[:5]))
    print(b['id'],'OK' if not msg else 'BAD '+'\n'.join(msg),flush=True)
    if msg: shutil.rmtree(d)
shutil.rmtree(W,ignore_errors=True)
