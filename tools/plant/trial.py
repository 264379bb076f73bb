#!/usr/bin/env python3
"""trial.py [-f FILE] [-tests] [ids]: applies each trial change to a scratch copy and runs the check of
its property (every check, expecting silence, if the property is None)."""
import json,os,shutil,subprocess,sys,time
here=os.path.dirname(os.path.abspath(__file__))
a=sys.argv[1:]; f='trials.py'
if '-f' in a: k=a.index('-f'); f=a[k+1]; del a[k:k+2]
only=[x for x in a if not x.startswith('-')]
ns={}; exec(open(here+'/'+f).read(),ns)
props=[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
W='/tmp/trialwork%d'%os.getpid()
for t in ns['TRIALS']:
    i,p,edits=t[:3]; which=(os.environ.get('PROPS','').split() or None) or (t[3] if len(t)>3 else None)
    if only and not any(i.startswith(o) for o in only): continue
    shutil.rmtree(W,ignore_errors=True); sh(f'cp -a /repo {W}; git -C {W} checkout -q -- .')
    bad=None
    for fn,o,n in edits:
        s=open(W+'/'+fn).read()
        if s.count(o)!=1: bad=f'{fn}: {s.count(o)} matches of {o[:60]!r}'; break
        open(W+'/'+fn,'w').write(s.replace(o,n))
    if bad: print(i,'EDIT',bad,flush=True); continue
    b=sh(f'cd {W} && go build ./... ')
    if b.returncode: print(i,'BUILD',b.stdout[-400:],flush=True); continue
    tests=''
    if '-tests' in a:
        r=sh(f'cd {W} && timeout -k 5 120 go test -timeout 60s ./... 2>&1 | grep -- "--- FAIL"')
        tests=' tests: '+(' '.join(l.split()[2] for l in r.stdout.split('\n') if l) or 'pass')
    for q in ([p] if p else (which or props)):
        t0=time.time()
        r=sh(f'cd /verif && VRUN_REPO={W} ./run.sh {q} quick')
        v='VIOLATION property='+q+' ' in r.stdout
        k=[l for l in r.stdout.split('\n') if l.startswith('[')]
        st='CAUGHT' if v and r.returncode==1 else ('quiet' if r.returncode==0 else 'ERROR rc=%d %s'%(r.returncode,r.stdout[-300:]))
        if p or st!='quiet': print(i,q,st,round(time.time()-t0),(k[:1] or [''])[0][:150],tests,flush=True)
    if not p: print(i,'done',tests,flush=True)
shutil.rmtree(W,ignore_errors=True)
